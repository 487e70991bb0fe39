//! C14, C15: questions about types and paths through types and values.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{TinyBlob, TinyString};
use indexmap::IndexMap;
use strict_encoding::{FieldName, Primitive, Sizing, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, ItemCase, NamedFields, Path as TyPath, PrimitiveRef, Step as TyStep, UnionVariants, UnnamedFields};
use strict_types::{KeyStep, Step};
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::*;

use crate::sym;
use crate::uni::{evars, fnm, uint, vn};

fn mark(i: usize) -> SemId { SemId::from([i as u8 + 1; 32]) }
fn is_id(r: Option<&SemId>, want: Option<usize>) -> bool {
    match (r, want) {
        (None, None) => true,
        (Some(r), Some(i)) => *r == mark(i),
        _ => false,
    }
}

struct M {
    name: String,
    tag: u8,
}
const NAMES: [&str; 5] = ["xb", "x", "xba", "xc", "y"];
/// n members with distinct names and tags; more than 3: names and tags are concrete
fn members(n: usize) -> Vec<M> {
    let mut ms: Vec<M> = vec![];
    for i in 0..n {
        let m = if n <= 3 {
            let m = M { name: NAMES[i].to_string(), tag: sym::u8_() };
            for o in &ms { sym::assume(o.tag != m.tag) }
            m
        } else {
            let a = b"abcdefghijklmnopqrstuvwxyz";
            M { name: String::from_utf8(vec![a[i % 26], a[i / 26]]).unwrap(), tag: (i * 7 % 256) as u8 }
        };
        ms.push(m)
    }
    ms
}
fn field(n: &str) -> FieldName { FieldName::try_from(n.to_string()).unwrap() }
fn var(n: &str) -> VariantName { VariantName::try_from(n.to_string()).unwrap() }
fn same(a: &str, b: &str) -> bool { a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(a, b)| a == b) }
fn by_name(ms: &[M], q: &str) -> Option<usize> { ms.iter().position(|m| same(&m.name, q)) }
fn by_tag(ms: &[M], t: u8) -> Option<usize> { ms.iter().position(|m| m.tag == t) }
/// the member which is in position p when sorted by tag
fn by_rank(ms: &[M], p: u8) -> Option<usize> {
    (0..ms.len()).find(|i| ms.iter().filter(|m| m.tag < ms[*i].tag).count() == p as usize)
}

/// Every lookup agrees with the member list. cfg = kind + 10 * number of members (kinds: enum, union, struct, tuple)
pub fn h_lookup() {
    let c = sym::config();
    let n = [1, 2, 3, 254, 255][c / 10];
    let ms = members(n);
    let pos = sym::u8_();
    let tag = sym::u8_();
    let q = if n <= 3 { NAMES[sym::choice(5)].to_string() } else { ms[[0, 1, n - 1][sym::choice(3)]].name.clone() };
    let vname = |o: Option<&VariantName>, w: Option<usize>| match (o, w) {
        (None, None) => true,
        (Some(o), Some(i)) => same(o.as_str(), &ms[i].name),
        _ => false,
    };
    let what = if n <= 3 { 7 } else { 1 << sym::choice(3) };
    match c % 10 {
        0 => {
            let s: BTreeSet<Variant> = ms.iter().map(|m| Variant { name: var(&m.name), tag: m.tag }).collect();
            let v = EnumVariants::try_from(s).ok().unwrap();
            sym::cover(1);
            if what & 1 != 0 {
                let (q, w) = (var(&q), by_name(&ms, &q));
                sym::check(v.has_name(&q) == w.is_some(), 1);
                sym::check(v.tag_by_name(&q) == w.map(|i| ms[i].tag), 2);
                sym::check(match v.by_name(&q) { None => w.is_none(), Some(x) => w.is_some_and(|w| x.tag == ms[w].tag && same(x.name.as_str(), &ms[w].name)) }, 3);
            }
            if what & 2 != 0 {
                let w = by_tag(&ms, tag);
                sym::check(v.has_tag(tag) == w.is_some(), 4);
                sym::check(vname(v.name_by_tag(tag), w), 5);
                sym::check(match v.by_tag(tag) { None => w.is_none(), Some(x) => w.is_some_and(|w| x.tag == tag && same(x.name.as_str(), &ms[w].name)) }, 6);
            }
            if what & 4 != 0 {
                sym::check(v.len() == n, 7);
                let ty = Ty::<SemId>::Enum(v.clone());
                sym::check(ty.ty_at(pos).is_none() && ty.case_at(pos).is_none(), 8);
                let w = by_rank(&ms, pos);
                sym::check(vname(v.iter().nth(pos as usize).map(|v| &v.name), w), 9);
                sym::check(vname(v.into_iter().nth(pos as usize).map(|v| v.name).as_ref(), w), 9);
            }
        }
        1 => {
            let s: BTreeMap<Variant, SemId> = ms.iter().enumerate().map(|(i, m)| (Variant { name: var(&m.name), tag: m.tag }, mark(i))).collect();
            let v = UnionVariants::try_from(s).ok().unwrap();
            sym::cover(1);
            if what & 1 != 0 {
                let (q, w) = (var(&q), by_name(&ms, &q));
                sym::check(v.tag_by_name(&q) == w.map(|i| ms[i].tag), 2);
                sym::check(is_id(v.ty_by_name(&q), w), 1);
                sym::check(match v.by_name(&q) { None => w.is_none(), Some((x, r)) => w.is_some_and(|w| x.tag == ms[w].tag && same(x.name.as_str(), &ms[w].name) && *r == mark(w)) }, 3);
            }
            if what & 2 != 0 {
                let w = by_tag(&ms, tag);
                sym::check(v.has_tag(tag) == w.is_some(), 4);
                sym::check(vname(v.name_by_tag(tag), w), 5);
                sym::check(is_id(v.ty_by_tag(tag), w), 10);
                sym::check(match v.by_tag(tag) { None => w.is_none(), Some((x, r)) => w.is_some_and(|w| x.tag == tag && same(x.name.as_str(), &ms[w].name) && *r == mark(w)) }, 6);
            }
            if what & 4 != 0 {
                sym::check(v.len() == n, 7);
                let w = by_rank(&ms, pos);
                sym::check(is_id(v.ty_by_pos(pos), w), 11);
                sym::check(vname(v.name_by_pos(pos), w), 9);
                let (first, last) = (by_rank(&ms, 0), by_rank(&ms, n as u8 - 1));
                sym::check(vname(Some(&v.unwrap_first().name), first) && vname(Some(&v.unwrap_last().name), last), 12);
                let ty = Ty::<SemId>::Union(v);
                sym::check(is_id(ty.ty_at(pos), w), 8);
                sym::check(match ty.case_at(pos) {
                    None => w.is_none(),
                    Some(ItemCase::UnionVariant(t, name)) => w.is_some_and(|w| t == ms[w].tag && same(name.as_str(), &ms[w].name)),
                    _ => false
                }, 13);
            }
        }
        2 => {
            let v = NamedFields::try_from(ms.iter().enumerate().map(|(i, m)| Field { name: field(&m.name), ty: mark(i) }).collect::<Vec<_>>()).ok().unwrap();
            sym::cover(1);
            if what & 1 != 0 { sym::check(is_id(v.ty_by_name(&field(&q)), by_name(&ms, &q)), 1) }
            if what & 4 != 0 {
                let w = Some(pos as usize).filter(|p| *p < n);
                sym::check(is_id(v.ty_by_pos(pos), w), 11);
                let ty = Ty::<SemId>::Struct(v);
                sym::check(is_id(ty.ty_at(pos), w), 8);
                sym::check(match ty.case_at(pos) {
                    None => w.is_none(),
                    Some(ItemCase::NamedField(p, name)) => w.is_some_and(|w| p == pos && same(name.as_str(), &ms[w].name)),
                    _ => false
                }, 13);
            }
        }
        3 => {
            let v = UnnamedFields::try_from((0..n).map(mark).collect::<Vec<_>>()).ok().unwrap();
            sym::cover(1);
            let w = Some(pos as usize).filter(|p| *p < n);
            sym::check(is_id(v.ty_by_pos(pos), w), 11);
            let ty = Ty::<SemId>::Tuple(v);
            sym::check(is_id(ty.ty_at(pos), w), 8);
            sym::check(match ty.case_at(pos) {
                None => w.is_none(),
                Some(ItemCase::UnnamedField(p)) => w.is_some() && p == pos,
                _ => false
            }, 13);
        }
        _ => {
            // iteration lists each reference once, in order, with the case of its position
            let kind = sym::choice(3);
            let ty = if kind == 0 {
                Ty::<SemId>::Union(UnionVariants::try_from(ms.iter().enumerate().map(|(i, m)| (Variant { name: var(&m.name), tag: m.tag }, mark(i))).collect::<BTreeMap<_, _>>()).ok().unwrap())
            } else if kind == 1 {
                Ty::Struct(NamedFields::try_from(ms.iter().enumerate().map(|(i, m)| Field { name: field(&m.name), ty: mark(i) }).collect::<Vec<_>>()).ok().unwrap())
            } else {
                Ty::Tuple(UnnamedFields::try_from((0..n).map(mark).collect::<Vec<_>>()).ok().unwrap())
            };
            sym::cover(1);
            let mut order: Vec<usize> = (0..n).collect();
            if n > 3 { order.sort_by_key(|i| ms[*i].tag) }
            let nth = |p: usize| if kind == 0 { if n <= 3 { by_rank(&ms, p as u8) } else { order.get(p).copied() } } else { Some(p) };
            let full = n <= 3 || sym::choice(2) == 1;
            if full {
                let mut p = 0;
                for (id, case) in ty.iter() {
                    sym::check(p < n && is_id(Some(id), nth(p)), 14);
                    sym::check(case == ty.case_at(p as u8) && case.is_some(), 15);
                    p += 1;
                }
                sym::check(p == n, 16);
            } else {
                let mut p = 0;
                for id in ty.clone().into_iter() {
                    sym::check(p < n && is_id(Some(&id), nth(p)), 14);
                    p += 1;
                }
                sym::check(p == n && ty.count_type_refs() as usize == n, 16);
            }
        }
    }
}

fn sub(i: usize) -> TranspileRef {
    let t = match i {
        0 => Ty::Primitive(Primitive::U8),
        1 => Ty::Primitive(Primitive::BYTE),
        2 => Ty::UnicodeChar,
        3 => Ty::Enum(evars(&[("lo", 97), ("one", 49)])),
        4 => Ty::Primitive(Primitive::U16),
        _ => Ty::Enum(evars(&[("lo", 1), ("hi", 97)])),
    };
    TranspileRef::Embedded(Box::new(t))
}
fn subid(i: usize) -> SemId {
    match i {
        0 => Ty::<SemId>::U8.sem_id_unnamed(),
        1 => SemId::byte(),
        2 => SemId::unicode_char(),
        _ => mark(i),
    }
}
struct Exp {
    cls: Cls,
    refs: u8,
    compound: bool,
    newtype: bool,
    option: bool,
    chars: Option<bool>,
    byte: bool,
    unicode: bool,
    byte_array: bool,
}

/// Classification of types. cfg: 0 primitives, 1 enum, 2 union, 3 struct, 4 tuple, 5.. array, list, set, map, unicode
pub fn h_class() {
    let c = sym::config();
    let z = Sizing { min: sym::u64_(), max: sym::u64_() };
    let len = sym::u16_();
    let mut e = Exp { cls: Cls::Primitive, refs: 0, compound: false, newtype: false, option: false, chars: Some(false), byte: false, unicode: false, byte_array: false };
    let k = sym::choice(6);
    match c {
        0 => {
            let code = sym::concretize(sym::u8_() as u64) as u8;
            e.byte = code == 0x40 || code == 1;
            let (a, b) = (Ty::<SemId>::Primitive(Primitive::from_code(code)), Ty::<TranspileRef>::Primitive(Primitive::from_code(code)));
            class(&a, &e);
            class(&b, &e);
            sym::check(a.is_primitive(), 7);
        }
        1 => {
            let ms = members([1, 2, 3][k % 3]);
            let v = EnumVariants::try_from(ms.iter().map(|m| Variant { name: var(&m.name), tag: m.tag }).collect::<BTreeSet<_>>()).ok().unwrap();
            e.cls = Cls::Enum;
            e.compound = true;
            e.chars = Some(ms.iter().all(|m| m.tag >= 32 && m.tag <= 127));
            class(&Ty::<SemId>::Enum(v.clone()), &e);
            class(&Ty::<TranspileRef>::Enum(v), &e);
        }
        2 => {
            const POOL: [&str; 4] = ["none", "some", "other", "nonf"];
            let n = 1 + sym::choice(3);
            let mut ms: Vec<(usize, u8)> = vec![];
            for _ in 0..n {
                let m = (sym::choice(4), sym::u8_());
                for o in &ms {
                    if o.0 == m.0 { sym::reject() }
                    sym::assume(o.1 != m.1)
                }
                ms.push(m)
            }
            e.cls = Cls::Union;
            e.compound = true;
            e.refs = n as u8;
            let none = ms.iter().position(|m| m.0 == 0 && m.1 == 0);
            let some = ms.iter().position(|m| m.0 == 1 && m.1 == 1);
            e.option = n == 2 && none.is_some() && some.is_some();
            let v = UnionVariants::try_from(ms.iter().enumerate().map(|(i, m)| (Variant { name: vn(POOL[m.0]), tag: m.1 }, mark(i))).collect::<BTreeMap<_, _>>()).ok().unwrap();
            let ty = Ty::<SemId>::Union(v);
            class(&ty, &e);
            sym::check(is_id(ty.as_some(), if e.option { some } else { None }), 8);
        }
        3 | 4 => {
            let n = [1, 2, 255][sym::choice(3)];
            e.refs = n as u8;
            e.compound = n > 1;
            let ty = if c == 3 {
                e.cls = Cls::Struct;
                Ty::Struct(NamedFields::try_from(members(if n == 1 { 4 } else { n }).iter().take(n).enumerate().map(|(i, m)| Field { name: field(&m.name), ty: sub(if i == 0 { k } else { 4 }) }).collect::<Vec<_>>()).ok().unwrap())
            } else {
                e.cls = Cls::Tuple;
                e.newtype = n == 1;
                // a newtype around a character set is a character set
                e.chars = Some(n == 1 && k == 3);
                Ty::Tuple(UnnamedFields::try_from((0..n).map(|i| sub(if i == 0 { k } else { 3 })).collect::<Vec<_>>()).ok().unwrap())
            };
            class(&ty, &e);
            match (e.newtype, ty.as_wrapped_ty()) {
                (true, Some(w)) => sym::check(w == sub(k).as_ty().unwrap(), 9),
                (w, r) => sym::check(!w && r.is_none(), 9),
            }
        }
        5 => {
            e.cls = Cls::Array;
            e.refs = 1;
            e.byte_array = k < 2;
            class(&Ty::Array(sub(k), len), &e);
            let ty = Ty::Array(subid(k), len);
            class(&ty, &e);
            sym::check(ty.is_collection() && !ty.is_primitive(), 7);
        }
        6 | 7 => {
            e.cls = if c == 6 { Cls::List } else { Cls::Set };
            e.refs = 1;
            let (a, b) = if c == 6 { (Ty::List(sub(k), z), Ty::List(subid(k), z)) } else { (Ty::Set(sub(k), z), Ty::Set(subid(k), z)) };
            class(&a, &e);
            class(&b, &e);
            sym::check(a.is_collection() && !b.is_primitive(), 7);
            sym::check(b.ty_at(len as u8).copied() == if len as u8 == 0 { Some(subid(k)) } else { None }, 10);
            sym::check(b.case_at(len as u8) == if len as u8 != 0 { None } else if c == 6 { Some(ItemCase::ListItem) } else { Some(ItemCase::SetItem) }, 11);
        }
        8 => {
            e.cls = Cls::Map;
            e.refs = 2;
            let b = Ty::Map(mark(1), mark(2), z);
            class(&b, &e);
            sym::check(b.is_collection() && !b.is_primitive(), 7);
            sym::check(is_id(b.ty_at(len as u8), match len as u8 { 0 => Some(1), 1 => Some(2), _ => None }), 10);
            sym::check(b.case_at(len as u8) == match len as u8 { 0 => Some(ItemCase::MapKey), 1 => Some(ItemCase::MapValue), _ => None }, 11);
        }
        _ => {
            e.cls = Cls::Unicode;
            e.unicode = true;
            class(&Ty::<SemId>::UnicodeChar, &e);
            class(&Ty::<TranspileRef>::UnicodeChar, &e);
        }
    }
    sym::cover(1);
}
fn class<R: TypeRef>(ty: &Ty<R>, e: &Exp) {
    sym::check(ty.cls() == e.cls, 1);
    sym::check(ty.count_type_refs() == e.refs && ty.iter().count() == e.refs as usize && ty.clone().into_iter().count() == e.refs as usize, 2);
    sym::check(ty.is_compound() == e.compound, 3);
    sym::check(ty.is_newtype() == e.newtype, 4);
    sym::check(ty.is_option() == e.option && ty.as_some().is_some() == e.option, 5);
    if let Some(c) = e.chars { sym::check(ty.is_char_enum() == c, 6) }
    sym::check(ty.is_byte() == e.byte, 12);
    sym::check(ty.is_unicode_char() == e.unicode, 13);
    sym::check(ty.is_byte_array() == e.byte_array, 14);
    sym::check(ty.is_primitive() == matches!(e.cls, Cls::Primitive | Cls::Unicode), 15);
    sym::check(ty.is_collection() == matches!(e.cls, Cls::Array | Cls::List | Cls::Set | Cls::Map), 16);
}

// ---- paths through values ----------------------------------------------------------------------

/// a value whose levels are composites of symbolic kind
fn nested(depth: usize, kind: usize) -> StrictVal {
    if depth == 0 { return [StrictVal::Unit, uint(7), StrictVal::String("ab".into())][sym::choice(2)].clone() }
    let n = if depth == 1 { 2 } else { 1 + sym::choice(2) };
    // only the last component is nested further, the others are leaves
    let mut subs: Vec<StrictVal> = (0..n - 1).map(|i| uint(i as u64)).collect();
    subs.push(nested(depth - 1, kind / 10));
    if depth > 1 && sym::choice(2) == 1 { subs.reverse() }
    match kind % 10 {
        0 => StrictVal::Tuple(subs),
        1 => StrictVal::List(subs),
        2 => StrictVal::Set(subs),
        3 => StrictVal::Struct(subs.into_iter().zip(["aa", "ab"]).map(|(v, n)| (fnm(n), v)).collect::<IndexMap<_, _>>()),
        4 => {
            let (a, b) = (sym::u64_(), sym::u64_());
            sym::assume(a != b);
            StrictVal::Map(subs.into_iter().zip([a, b]).map(|(v, k)| (uint(k), v)).collect())
        }
        5 => {
            let (a, b) = (sym::u8_(), sym::u8_());
            sym::assume(a != b);
            StrictVal::Map(subs.into_iter().zip([a, b]).map(|(v, k)| (StrictVal::Enum(EnumTag::Ord(k)), v)).collect())
        }
        6 => {
            let (a, b) = (sym::u8_(), sym::u8_());
            sym::assume(a != b);
            StrictVal::Map(subs.into_iter().zip([vec![a], vec![b, a]]).map(|(v, k)| (StrictVal::Bytes(Blob(k)), v)).collect())
        }
        7 => StrictVal::Map(subs.into_iter().zip(["k", "kk"]).map(|(v, k)| (StrictVal::String(k.into()), v)).collect()),
        8 => StrictVal::Union(EnumTag::Ord(1), Box::new(subs.pop().unwrap())),
        _ => subs.pop().unwrap(),
    }
}
fn step(which: usize) -> Step {
    match which {
        0 => Step::UnnamedField(sym::u8_()),
        1 => Step::Index(sym::u32_()),
        2 => Step::NamedField(fnm(["aa", "ab", "ac"][sym::choice(3)])),
        3 => Step::Key(KeyStep::Number(sym::u64_() as u128 | (sym::u64_() as u128) << 64)),
        4 => Step::Key(KeyStep::TinyBlob(TinyBlob::try_from((0..sym::choice(3)).map(|_| sym::u8_()).collect::<Vec<u8>>()).unwrap())),
        _ => Step::Key(KeyStep::TinyString(TinyString::try_from(["k", "kk", "kx"][sym::choice(3)].to_string()).unwrap())),
    }
}
fn key_is(k: &KeyStep, v: &StrictVal) -> bool {
    match (k, v) {
        (KeyStep::Number(n), StrictVal::Number(StrictNum::Uint(m))) => *n == *m as u128,
        (KeyStep::Number(n), StrictVal::Enum(EnumTag::Ord(m))) => *n == *m as u128,
        (KeyStep::TinyBlob(b), StrictVal::Bytes(x)) => b.len() == x.0.len() && b.iter().zip(&x.0).all(|(a, b)| a == b),
        (KeyStep::TinyString(s), StrictVal::String(x)) => same(s.as_str(), x),
        _ => false,
    }
}
fn walk<'v>(v: &'v StrictVal, s: &Step) -> Option<&'v StrictVal> {
    match (s, v) {
        (Step::UnnamedField(i), StrictVal::Tuple(x)) => x.get(*i as usize),
        (Step::Index(i), StrictVal::List(x) | StrictVal::Set(x)) => x.get(*i as usize),
        (Step::NamedField(n), StrictVal::Struct(x)) => x.iter().find(|(k, _)| same(k.as_str(), n.as_str())).map(|(_, v)| v),
        (Step::Key(k), StrictVal::Map(x)) => x.iter().find(|(y, _)| key_is(k, y)).map(|(_, v)| v),
        _ => None,
    }
}

/// Paths through values. cfg = kinds of the levels (outermost in the last digit) + 1000 * path length
pub fn h_vpath() {
    let c = sym::config();
    let v = nested(if c / 1000 > 2 { 3 } else { 2 }, c % 1000);
    let path: Vec<Step> = (0..c / 1000).map(|_| step(sym::choice(6))).collect();
    let mut want = Some(&v);
    for s in &path { want = want.and_then(|w| walk(w, s)) }
    match (v.at_path(&path), want) {
        (Ok(r), Some(w)) => {
            sym::cover(1);
            sym::check(core::ptr::eq(r, w), 1);
        }
        (Ok(_), None) => sym::check(false, 2),
        (Err(_), Some(_)) => sym::check(false, 3),
        (Err(_), None) => sym::cover(2),
    }
}

fn ty_nested(depth: usize, kind: usize) -> Ty<TranspileRef> {
    if depth == 0 { return Ty::Primitive(Primitive::U8) }
    let emb = |t| TranspileRef::Embedded(Box::new(t));
    let named = || TranspileRef::Named(strict_encoding::TypeName::from("Other"));
    let deep = ty_nested(depth - 1, kind / 10);
    let other = if sym::choice(2) == 1 { named() } else { emb(Ty::Primitive(Primitive::U16)) };
    let mut subs = vec![emb(deep), other];
    let rev = sym::choice(2) == 1;
    if rev { subs.reverse() }
    let (b, a) = (subs.pop().unwrap(), subs.pop().unwrap());
    match kind % 10 {
        0 => Ty::Tuple(UnnamedFields::try_from(vec![a, b]).ok().unwrap()),
        1 => Ty::Struct(NamedFields::try_from(vec![Field { name: fnm("aa"), ty: a }, Field { name: fnm("ab"), ty: b }]).ok().unwrap()),
        2 => {
            let (t, s) = (sym::u8_(), sym::u8_());
            sym::assume(t != s);
            let m = [(Variant { name: vn("aa"), tag: t }, a), (Variant { name: vn("ab"), tag: s }, b)];
            Ty::Union(UnionVariants::try_from(m.into_iter().collect::<BTreeMap<_, _>>()).ok().unwrap())
        }
        3 => Ty::Array(a, 3),
        4 => Ty::List(a, Sizing::U8),
        5 => Ty::Set(a, Sizing::U8),
        _ => Ty::Map(a, b, Sizing::U8),
    }
}
fn ty_step(which: usize) -> TyStep {
    match which {
        0 => TyStep::NamedField(fnm(["aa", "ab", "ac"][sym::choice(3)])),
        1 => TyStep::UnnamedField(sym::u8_()),
        2 => TyStep::Variant(vn(["aa", "ab", "ac"][sym::choice(3)])),
        3 => TyStep::Index,
        4 => TyStep::List,
        5 => TyStep::Set,
        6 => TyStep::MapKey,
        _ => TyStep::MapValue,
    }
}
fn ty_walk<'t>(t: &'t Ty<TranspileRef>, s: &TyStep) -> Option<&'t Ty<TranspileRef>> {
    let r = match (s, t) {
        (TyStep::NamedField(n), Ty::Struct(f)) => f.iter().find(|f| same(f.name.as_str(), n.as_str())).map(|f| &f.ty),
        (TyStep::UnnamedField(i), Ty::Struct(f)) => f.iter().nth(*i as usize).map(|f| &f.ty),
        (TyStep::UnnamedField(i), Ty::Tuple(f)) => f.iter().nth(*i as usize),
        (TyStep::UnnamedField(i), Ty::Union(f)) => f.iter().find(|(v, _)| v.tag == *i).map(|(_, t)| t),
        (TyStep::Variant(n), Ty::Union(f)) => f.iter().find(|(v, _)| same(v.name.as_str(), n.as_str())).map(|(_, t)| t),
        (TyStep::Index, Ty::Array(t, _)) | (TyStep::List, Ty::List(t, _)) | (TyStep::Set, Ty::Set(t, _)) | (TyStep::MapKey, Ty::Map(t, _, _)) | (TyStep::MapValue, Ty::Map(_, t, _)) => Some(t),
        _ => None,
    }?;
    match r {
        TranspileRef::Embedded(t) => Some(t),
        _ => None,
    }
}

/// Paths through types. cfg = kinds of the levels (outermost in the last digit) + 1000 * path length
pub fn h_tpath() {
    let c = sym::config();
    let t = ty_nested(if c / 1000 > 2 { 3 } else { 2 }, c % 1000);
    let mut path = TyPath::new();
    for _ in 0..c / 1000 { path.push(ty_step(sym::choice(8))).unwrap() }
    let mut want = Some(&t);
    for s in &path { want = want.and_then(|w| ty_walk(w, s)) }
    match (t.at_path(&path), want) {
        (Ok(r), Some(w)) => {
            sym::cover(1);
            sym::check(core::ptr::eq(r, w), 1);
        }
        (Ok(_), None) => sym::check(false, 2),
        (Err(_), Some(_)) => sym::check(false, 3),
        (Err(_), None) => sym::cover(2),
    }
}
