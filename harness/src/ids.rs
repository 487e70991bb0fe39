//! C08: what the ids of libraries and type systems commit to. C18: identifiers as text.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, MediumOrdMap, SmallOrdMap, TinyOrdMap, TinyOrdSet};
use armor::AsciiArmor;
use strict_encoding::{LibName, StrictDeserialize, StrictSerialize, TypeName};
use strict_types::typelib::ExternTypes;
use strict_types::typesys::{TypeFqn, SymbolicSys, SystemBuilder};
use std::str::FromStr;
use strict_types::*;

use crate::idm::{any, lib, same, sem, Q, Refs, KINDS, S};
use crate::sym;

const LN: [&str; 4] = ["Lib", "Liba", "Other", "L"];
const TN: [&str; 4] = ["Aa", "B", "Bb", "Aab"];
fn ln(i: usize) -> LibName { LibName::from(LN[i]) }
fn tn(i: usize) -> TypeName { TypeName::from(TN[i]) }

struct L { name: usize, deps: Vec<u8>, types: Vec<(usize, S)> }
impl L {
    fn lib(&self) -> TypeLib { self.lib_with(|i| i, true) }
    fn lib_with(&self, dep_name: impl Fn(usize) -> usize, fwd: bool) -> TypeLib {
        let mut d = TinyOrdSet::new();
        let mut t = BTreeMap::new();
        let (n, m) = (self.deps.len(), self.types.len());
        for i in 0..n {
            let i = if fwd { i } else { n - 1 - i };
            d.push(Dependency::with(lib(self.deps[i]), ln(dep_name(i)))).unwrap();
        }
        for i in 0..m {
            let (name, s) = &self.types[if fwd { i } else { m - 1 - i }];
            t.insert(tn(*name), s.ty::<LibRef>());
        }
        TypeLib { name: ln(self.name), dependencies: d, extern_types: Default::default(), types: Confined::try_from(t).ok().unwrap() }
    }
    fn write(&self) -> Vec<u8> {
        let mut out = vec![LN[self.name].len() as u8];
        out.extend(LN[self.name].as_bytes());
        out.push(self.deps.len() as u8);
        out.extend(&self.deps);
        out.push(self.types.len() as u8);
        for (n, s) in &self.types {
            out.push(TN[*n].len() as u8);
            out.extend(TN[*n].as_bytes());
            s.write(true, &mut out);
        }
        out
    }
}
fn sorted(n: usize) -> Vec<u8> {
    let v: Vec<u8> = (0..n).map(|_| sym::u8_()).collect();
    for i in 1..n { sym::assume(v[i - 1] < v[i]) }
    v
}
/// types in the order of their names
const TYPES: [&[usize]; 5] = [&[0], &[3], &[0, 1], &[1, 2], &[0, 3, 2]];
fn any_lib(kind: u8, last: u8) -> L {
    let name = [0, 1][sym::choice(2)];
    let deps = sorted([0, 1, 2][sym::choice(3)]);
    let types = TYPES[sym::choice(TYPES.len())];
    let n = types.len();
    L { name, deps, types: types.iter().enumerate().map(|(i, t)| (*t, if i + 1 == n { any(kind, 0, true) } else { any(last, 0, true) })).collect() }
}

/// pairs of libraries; cfg: kinds of the last types, 10s
pub fn h_libid() {
    let c = sym::config();
    sym::const_digests();
    let (a, b) = (any_lib(KINDS[c % 10], 7), any_lib(KINDS[c / 10 % 10], 7));
    let equal = same(&a.write(), &b.write());
    let (i, j) = (a.lib().id(), b.lib().id());
    sym::check(equal | (i != j), 1);
    sym::check(!equal | (i == j), 2);
    sym::cover(1)
}

/// one library put together in different ways
pub fn h_libid_forms() {
    let c = sym::config();
    let a = any_lib(KINDS[c], 8);
    let l = a.lib();
    let id = l.id();
    // the order in which the parts are added
    sym::check(a.lib_with(|i| i, false).id() == id, 3);
    // the names by which dependencies are known are not a part of the content
    sym::check(a.lib_with(|i| i + 1, true).id() == id, 3);
    let Ok(bytes) = l.to_strict_serialized::<0xFFFFFF>() else { return sym::check(false, 4) };
    match TypeLib::from_strict_serialized::<0xFFFFFF>(bytes) {
        Ok(m) => sym::check(m.id() == id, 4),
        Err(_) => sym::check(false, 4),
    }
    sym::check(Dependency::from(&l).id == id, 3);
    sym::cover(1)
}

/// pairs of type systems; cfg: kinds, 10s
pub fn h_sysid() {
    sym::const_digests();
    let c = sym::config();
    let k = [KINDS[c % 10], KINDS[c / 10 % 10]];
    if c < 100 {
        // of types given by id
        let mut v = vec![];
        for k in k {
            let ids = sorted(sym::choice(4));
            let m: BTreeMap<SemId, Ty<SemId>> = ids.iter().enumerate().map(|(i, b)| (sem(*b), any(if i == 0 { k } else { 7 }, 0, true).ty())).collect();
            let t = TypeSystem::from(MediumOrdMap::try_from(m).ok().unwrap());
            let id = t.id();
            let Ok(bytes) = t.to_strict_serialized::<0xFFFFFF>() else { return sym::check(false, 4) };
            sym::check(matches!(TypeSystem::from_strict_serialized::<0xFFFFFF>(bytes), Ok(u) if u.id() == id), 4);
            let s = SymbolicSys::new(t, SystemBuilder::new().finalize().ok().unwrap().as_symbols().clone());
            sym::check(s.id() == id, 4);
            v.push((ids, id));
        }
        let equal = same(&v[0].0, &v[1].0);
        sym::check(equal | (v[0].1 != v[1].1), 1);
        sym::check(!equal | (v[0].1 == v[1].1), 2);
        sym::cover(1)
    } else {
        // assembled from libraries
        let mut v = vec![];
        for k in k {
            let a = L { name: sym::choice(2), deps: vec![], types: vec![(sym::choice(2), any(k, 0, true))] };
            let mut out = vec![a.types[0].0 as u8];
            a.types[0].1.write(true, &mut out);
            let Ok(s) = SystemBuilder::new().import(a.lib()) else { return sym::check(false, 4) };
            let Ok(s) = s.finalize() else { return sym::check(false, 4) };
            v.push((out, s.id()));
            sym::check(s.into_type_system().id() == v[v.len() - 1].1, 4)
        }
        let equal = same(&v[0].0, &v[1].0);
        sym::check(equal | (v[0].1 != v[1].1), 1);
        sym::check(!equal | (v[0].1 == v[1].1), 2);
        sym::cover(1)
    }
}

/// cfg: number of dependencies, 10s: kind of a type, 100s: library, type system, symbolic type system
pub fn h_armor() {
    sym::const_digests();
    let c = sym::config();
    let kind = KINDS[c / 10 % 10];
    let a = L { name: sym::choice(2), deps: (0..c % 10).map(|i| i as u8 + 1).collect(), types: vec![(0, any(kind, 0, true)), (1, any(8, 0, true))] };
    match c / 100 {
        0 => {
            let mut l = a.lib();
            if c % 10 > 0 {
                let e: ExternTypes = TinyOrdMap::try_from(BTreeMap::from([(ln(1), SmallOrdMap::try_from(BTreeMap::from([(sem(sym::u8_()), tn(3))])).unwrap())])).unwrap();
                l.extern_types = e;
            }
            armored(&l, &l.id())
        }
        d => {
            let m: BTreeMap<SemId, Ty<SemId>> = sorted(c % 10).iter().enumerate().map(|(i, b)| (sem(*b), any(if i == 0 { kind } else { 7 }, 0, true).ty())).collect();
            let t = TypeSystem::from(MediumOrdMap::try_from(m).ok().unwrap());
            if d == 1 { return armored(&t, &t.id()) }
            let l = L { name: 0, deps: vec![], types: vec![(0, any(3, 0, true)), (1, any(0, 0, true))] };
            let s = SystemBuilder::new().import(l.lib()).ok().unwrap();
            let sys = SymbolicSys::new(t, s.finalize().ok().unwrap().as_symbols().clone());
            armored(&sys, &sys.id())
        }
    }
}
fn armored<T: armor::StrictArmor + PartialEq>(t: &T, id: &T::Id) {
    let s = t.to_ascii_armored_string();
    match T::from_ascii_armored_str(&s) {
        Ok(m) => {
            sym::check(*t == m, 5);
            sym::check(m.armor_id() == *id, 5);
            sym::cover(1)
        }
        Err(_) => sym::check(false, 6),
    }
}

// ---- text --------------------------------------------------------------------------------------

/// 256 bits, in portions each of which is one character of the text
fn payload() -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut v = [0u8; 43];
    for i in 0..42 {
        v[i] = sym::var(6) as u8;
        sym::assume(v[i] < 64);
    }
    v[42] = (sym::var(4) as u8) << 2;
    for (i, b) in out.iter_mut().enumerate() {
        let at = i * 8 / 6;
        *b = match i % 3 {
            0 => v[at] << 2 | v[at + 1] >> 4,
            1 => v[at] << 4 | v[at + 1] >> 2,
            _ => v[at] << 6 | v[at + 1],
        };
    }
    out
}
trait Id: serde::Serialize + serde::de::DeserializeOwned + Copy + PartialEq + std::fmt::Display + std::str::FromStr + From<[u8; 32]> { const HRI: &'static str; }
impl Id for SemId { const HRI: &'static str = "semid"; }
impl Id for TypeLibId { const HRI: &'static str = "stl"; }
impl Id for TypeSysId { const HRI: &'static str = "sts"; }
fn text<T: Id>(id: T, style: usize) -> String {
    match style {
        0 => format!("{id}"),
        1 => format!("{id:-}"),
        2 => format!("{id:#}"),
        3 => format!("{id:-#}"),
        _ => format!("{id:+}"),
    }
}
fn id_text<T: Id, U: Id, W: Id>(style: usize) {
    if style == 5 {
        let mut p = [0x5C; 32];
        for i in [0, 15, 31] { p[i] = (sym::var(4) << 4 | sym::var(4)) as u8 }
        let Ok(t) = serde_json::to_string(&T::from(p)) else { return sym::check(false, 2) };
        match serde_json::from_str::<T>(&t) {
            Ok(u) => sym::check(u == T::from(p), 1),
            Err(_) => sym::check(false, 2),
        }
        sym::cover(2);
        return sym::cover(1)
    }
    let p = payload();
    let id = T::from(p);
    let t = text(id, style);
    match T::from_str(&t) {
        Ok(u) => sym::check(u == id, 1),
        Err(_) => sym::check(false, 2),
    }
    // the text of one kind of an id is not taken for another
    if let 0 | 2 | 4 = style {
        sym::check(U::from_str(&t).is_err() && W::from_str(&t).is_err(), 3);
        sym::check(t.as_bytes()[..T::HRI.len()] == *T::HRI.as_bytes(), 3);
        sym::cover(2)
    }
    sym::cover(1)
}
/// cfg: kind of the id, 10s: style
pub fn h_id_text() {
    sym::const_digests();
    let c = sym::config();
    match c % 10 {
        0 => id_text::<SemId, TypeLibId, TypeSysId>(c / 10),
        1 => id_text::<TypeLibId, SemId, TypeSysId>(c / 10),
        2 => id_text::<TypeSysId, TypeLibId, SemId>(c / 10),
        k => {
            let (u, t) = match k {
                3 => (Urn::Lib(TypeLibId::from(payload())), "urn:sten:lib:"),
                _ => (Urn::Type(SemId::from(payload())), "urn:sten:id:"),
            };
            let s = if c / 10 == 0 { format!("{u}") } else { format!("{u:#}") };
            let Some(rest) = s.strip_prefix(t) else { return sym::check(false, 2) };
            let ok = match u {
                Urn::Lib(id) => matches!(rest.parse::<TypeLibId>(), Ok(x) if x == id),
                Urn::Type(id) => matches!(rest.parse::<SemId>(), Ok(x) if x == id),
            };
            sym::check(ok, 1);
            sym::cover(1);
            sym::cover(2)
        }
    }
}
/// what of a text is the id itself
fn core(s: &[u8]) -> Vec<u8> {
    let from = s.iter().rposition(|c| *c == b':').map(|i| i + 1).unwrap_or(0);
    let s = &s[from..];
    let to = s.iter().position(|c| *c == b'#').unwrap_or(s.len());
    s[..to].iter().filter(|c| **c != b'-').copied().collect()
}
fn window<T: Id>(s: &str) {
    match T::from_str(s) {
        Ok(id) => {
            let t = format!("{id:-#}");
            sym::check(same(&core(s.as_bytes()), &core(t.as_bytes())), 4);
            match s.bytes().rposition(|c| c == b':') {
                Some(i) => sym::check(s.as_bytes()[..i] == *T::HRI.as_bytes(), 4),
                None => {}
            }
            sym::cover(1)
        }
        Err(_) => sym::cover(2),
    }
}
/// text of an id in which any characters are replaced; cfg: kind of the id, 10s: style,
/// 100s: place (0: short texts), 10000s: number of characters
pub fn h_id_window() {
    sym::const_digests();
    let c = sym::config();
    let (at, n) = (c / 100 % 100, c / 10000);
    // words are looked up by their hash: of those of symbolic characters one character is symbolic
    let mut words = 0u8;
    let raw: Vec<u8> = (0..n).map(|i| {
        let b = sym::u8_();
        sym::assume(b < 128);
        let alpha = (b | 32).wrapping_sub(b'a') < 26;
        if i > 0 { sym::assume(!alpha | (words == 0)) }
        words |= (b == b'#') as u8 | (alpha & (at >= 50)) as u8;
        b
    }).collect();
    let b = if at == 0 { raw } else {
        let id = [0x5C; 32];
        let mut b = match c % 10 { 0 => text(SemId::from(id), c / 10 % 10), 1 => text(TypeLibId::from(id), c / 10 % 10), _ => text(TypeSysId::from(id), c / 10 % 10) }.into_bytes();
        if at - 1 + n > b.len() { sym::reject() }
        b[at - 1..at - 1 + n].copy_from_slice(&raw);
        b
    };
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    match c % 10 {
        0 => window::<SemId>(s),
        1 => window::<TypeLibId>(s),
        _ => window::<TypeSysId>(s),
    }
}

/// names of file formats; cfg: length of the text
pub fn h_format() {
    let all = [StlFormat::Source, StlFormat::Binary, StlFormat::Armored];
    for f in all { sym::check(matches!(f.to_string().parse::<StlFormat>(), Ok(g) if g == f), 1) }
    for f in all { for g in all { sym::check((f == g) == (f.to_string() == g.to_string()), 3) } }
    let b: Vec<u8> = (0..sym::config()).map(|_| { let b = sym::u8_(); sym::assume(b < 128); b }).collect();
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    match s.parse::<StlFormat>() {
        Ok(f) => { sym::check(same(f.to_string().as_bytes(), &b), 4); sym::cover(1) }
        Err(_) => sym::cover(2),
    }
}

fn ident(n: usize) -> Vec<u8> {
    (0..n).map(|i| {
        let b = sym::u8_();
        let alpha = (b | 32).wrapping_sub(b'a') < 26 || b == b'_';
        sym::assume(if i == 0 { alpha } else { alpha | (b.wrapping_sub(b'0') < 10) });
        b
    }).collect()
}
fn leak(b: Vec<u8>) -> &'static str { Box::leak(unsafe { String::from_utf8_unchecked(b) }.into_boxed_str()) }
/// qualified type names; cfg: lengths of both parts, 10s
pub fn h_fqn() {
    let c = sym::config();
    let (mut l, t) = (ident(c / 10), ident(c % 10));
    let Ok(n) = LibName::try_from(unsafe { String::from_utf8_unchecked(l.clone()) }) else { sym::reject() };
    let Ok(m) = TypeName::try_from(unsafe { String::from_utf8_unchecked(t.clone()) }) else { sym::reject() };
    let name = TypeFqn::with(n, m);
    l.push(b'.');
    l.extend(&t);
    let s = name.to_string();
    sym::check(same(s.as_bytes(), &l), 5);
    let back = TypeFqn::from(leak(s.into_bytes()));
    sym::check(back == name, 1);
    sym::cover(1);
    sym::cover(2)
}

/// versions; cfg: number of pre-release and build fragments, 10s
pub fn h_semver() {
    let c = sym::config();
    let n = |max: u16| { let x = sym::u16_(); sym::assume(x <= max); x };
    let (a, b, p) = (n(9), n(9), n(9));
    let mut v = SemVer::new(a, b, p);
    let mut want = vec![b'0' + a as u8, b'.', b'0' + b as u8, b'.', b'0' + p as u8];
    for i in 0..c % 10 {
        want.push(if i == 0 { b'-' } else { b'.' });
        if sym::choice(2) == 0 {
            let w = ident(2);
            want.extend(&w);
            v.pre.push(PreFragment::Ident(strict_encoding::Ident::from(leak(w)))).unwrap();
        } else {
            let d = n(9);
            want.push(b'0' + d as u8);
            v.pre.push(PreFragment::Digits(d as u128)).unwrap();
        }
    }
    for i in 0..c / 10 {
        want.push(if i == 0 { b'+' } else { b'.' });
        let w = ident(2);
        want.extend(&w);
        let w = strict_encoding::Ident::from(leak(w));
        v.build.push(if sym::choice(2) == 0 { BuildFragment::Ident(w) } else { BuildFragment::Digits(w) }).unwrap();
    }
    sym::check(same(v.to_string().as_bytes(), &want), 5);
    let mut w = strict_encoding::StrictWriter::in_memory::<0xFFFF>();
    w = strict_encoding::StrictEncode::strict_encode(&v, w).ok().unwrap();
    let bytes = w.unbox().unconfine();
    let mut r = strict_encoding::StrictReader::in_memory::<0xFFFF>(bytes);
    sym::check(matches!(<SemVer as strict_encoding::StrictDecode>::strict_decode(&mut r), Ok(u) if u == v), 6);
    sym::cover(1);
    sym::cover(2)
}
