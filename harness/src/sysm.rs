//! C12, C13: type systems as a whole: extraction and walking.
use std::collections::BTreeMap;

use amplify::confinement::Confined;
use strict_encoding::{FieldName, Ident, Primitive, Sizing, StrictDeserialize, TypeName, Variant};
use strict_types::ast::{Field, ItemCase, NamedFields, UnionVariants, UnnamedFields};
use strict_types::layout::vesper::{Attr, Pred, TypeVesper};
use strict_types::layout::MemoryLayout;
use strict_types::typesys::{NestedCase, Symbols, TypeFqn, TypeInfo};
use strict_types::*;

use crate::sym;
use crate::uni::{evars, fnm, universe, vn, Sh, S255, U};

// ---- extraction (C12) --------------------------------------------------------------------------

fn node(b: u8) -> SemId {
    let mut id = [7; 32];
    id[0] = b;
    SemId::from(id)
}
fn tname(i: usize) -> String { format!("{}{}", (b'a' + (i % 26) as u8) as char, (b'a' + (i / 26) as u8) as char) }
/// a type of the given kind; n: number of members where that is free
fn typ(kind: usize, r: &[SemId], n: usize) -> Ty<SemId> {
    let at = |i: usize| r[i.min(r.len() - 1)];
    match kind {
        0 => Ty::Primitive(Primitive::U8),
        1 => Ty::List(r[0], S255),
        2 => Ty::Array(r[0], 3),
        3 => Ty::Set(r[0], S255),
        4 => Ty::Map(r[0], at(1), S255),
        5 => Ty::Tuple(UnnamedFields::try_from((0..n).map(|i| at(n - 1 - i)).collect::<Vec<_>>()).ok().unwrap()),
        6 => Ty::Struct(NamedFields::try_from((0..n).map(|i| Field { name: FieldName::try_from(tname(i)).unwrap(), ty: at(n - 1 - i) }).collect::<Vec<_>>()).ok().unwrap()),
        7 => Ty::Union(
            UnionVariants::try_from((0..n).map(|i| (Variant { name: strict_encoding::VariantName::try_from(tname(i)).unwrap(), tag: i as u8 }, at(n - 1 - i))).collect::<BTreeMap<_, _>>()).ok().unwrap(),
        ),
        8 => Ty::Enum(evars(&[("ax", 1), ("by", 5)])),
        _ => Ty::UnicodeChar,
    }
}
fn slots(kind: usize) -> usize {
    match kind {
        1..=3 => 1,
        4..=7 => 2,
        _ => 0,
    }
}

/// cfg: last three digits = kinds of the nodes; 1000s: members of composites (2, 3, 255)
pub fn h_extract() {
    let c = sym::config();
    let n = 3;
    let members = [2, 3, 255][c / 1000];
    let mut kinds = vec![];
    let mut refs: Vec<Vec<u8>> = vec![];
    let mut tys = vec![];
    let mut m = BTreeMap::new();
    for i in 0..n {
        let k = c / [1, 10, 100][i] % 10;
        let mut r = vec![];
        for _ in 0..slots(k) {
            let b = sym::u8_();
            // n stands for a type which is missing
            sym::assume(b <= n as u8);
            r.push(b);
        }
        let ids: Vec<SemId> = r.iter().map(|b| node(*b)).collect();
        let t = typ(k, &ids, members);
        m.insert(node(i as u8), t.clone());
        tys.push(t);
        kinds.push(k);
        refs.push(r);
    }
    let sys = TypeSystem::from(Confined::try_from(m).ok().unwrap() as amplify::confinement::MediumOrdMap<_, _>);
    let roots: Vec<u8> = match sym::choice(4) {
        0 => vec![],
        1 => vec![0],
        2 => vec![2, 0],
        _ => vec![3, 1],
    };
    let res = sys.extract(roots.iter().map(|b| node(*b)));
    // reachable set, deciding references only as far as they matter
    let mut reach = [false; 4];
    let mut todo = roots.clone();
    while let Some(x) = todo.pop() {
        if reach[x as usize] { continue }
        reach[x as usize] = true;
        if (x as usize) < n { todo.extend(refs[x as usize].iter().map(|b| sym::concretize(*b as u64) as u8)) }
    }
    match res {
        Ok(e) => {
            sym::cover(1);
            sym::check(!reach[n], 1);
            for i in 0..n {
                match e.get(node(i as u8)) {
                    None => sym::check(!reach[i], 2),
                    Some(t) => {
                        sym::check(reach[i], 3);
                        sym::check(*t == tys[i], 4)
                    }
                }
            }
            sym::check(e.len() == reach[..n].iter().filter(|r| **r).count(), 3);
        }
        Err(_) => {
            sym::cover(2);
            sym::check(reach[n], 5)
        }
    }
}

// ---- walking (C13) -----------------------------------------------------------------------------

/// symbols for those composite types of the universe which are to have names
fn symbols(u: &U, named: &dyn Fn(usize) -> bool) -> (Symbols, Vec<Option<TypeFqn>>) {
    let mut names = vec![];
    let mut body: Vec<u8> = vec![];
    let mut count = 0u8;
    for i in 0..u.sh.len() {
        if matches!(u.sh[i], Sh::Prim(_) | Sh::Uni) || !named(i) {
            names.push(None);
            continue;
        }
        let (lib, name) = (["Liba", "Lb"][i % 2], format!("T{}y", (b'a' + i as u8) as char));
        count += 1;
        body.extend([0x80 + i as u8; 32]);
        body.push(1);
        body.push(lib.len() as u8);
        body.extend(lib.as_bytes());
        body.push(name.len() as u8);
        body.extend(name.as_bytes());
        names.push(Some(TypeFqn::with(strict_encoding::LibName::from(lib), TypeName::try_from(name).unwrap())));
    }
    let mut b = vec![0, 0, count, 0, 0];
    b.extend(body);
    (Symbols::from_strict_serialized::<0xFFFF>(Confined::try_from(b).unwrap()).unwrap(), names)
}

struct Exp {
    out: Vec<(u32, usize, Option<ItemCase>, Vec<NestedCase>)>,
}
impl Exp {
    fn walk(&mut self, u: &U, names: &[Option<TypeFqn>], t: usize, depth: u32, item: Option<ItemCase>, mut nested: Vec<NestedCase>) {
        let leaf = |u: &U, i: usize| match &u.sh[i] {
            Sh::Prim(p) if *p == Primitive::U8 || *p == Primitive::BYTE => Some(NestedCase::ByteStr),
            Sh::Uni => Some(NestedCase::UniStr),
            _ if u.is_char(i) => Some(NestedCase::AsciiStr(names[i].clone())),
            _ => None,
        };
        let mut kids: Vec<(usize, ItemCase)> = vec![];
        match &u.sh[t] {
            Sh::Tup(f) if f.len() == 1 => {
                nested.push(NestedCase::NewType(names[t].clone()));
                return self.walk(u, names, f[0], depth, item, nested);
            }
            Sh::Union(_) if u.option(t).is_some() => {
                nested.push(NestedCase::Option);
                return self.walk(u, names, u.option(t).unwrap().1, depth, item, nested);
            }
            Sh::Tup(f) => match u.rstr(t) {
                Some((a, b, s)) => nested.push(NestedCase::RStr(
                    names[a].clone(),
                    names[b].clone(),
                    Sizing { min: s.min.saturating_add(1), max: s.max.saturating_add(1) },
                )),
                None => for (i, f) in f.iter().enumerate() { kids.push((*f, ItemCase::UnnamedField(i as u8))) },
            },
            Sh::Str(f) => for (i, (n, f)) in f.iter().enumerate() { kids.push((*f, ItemCase::NamedField(i as u8, fnm(n)))) },
            Sh::Union(v) => {
                let mut v = v.clone();
                v.sort_by_key(|v| v.1);
                for (n, tag, f) in v { kids.push((f, ItemCase::UnionVariant(tag, vn(n)))) }
            }
            Sh::Arr(i, _) => if !u.is_byte(*i) { kids.push((*i, ItemCase::ArrayItem)) },
            Sh::List(i, _) => match leaf(u, *i) {
                Some(c) => nested.push(c),
                None => kids.push((*i, ItemCase::ListItem)),
            },
            Sh::Set(i, _) => kids.push((*i, ItemCase::SetItem)),
            Sh::Map(k, v, _) => {
                kids.push((*k, ItemCase::MapKey));
                kids.push((*v, ItemCase::MapValue));
            }
            _ => {}
        }
        self.out.push((depth, t, item, nested));
        for (k, case) in kids { self.walk(u, names, k, depth + 1, Some(case), vec![]) }
    }
}

/// the rendering of one item
fn vesper(u: &U, names: &[Option<TypeFqn>], e: &(u32, usize, Option<ItemCase>, Vec<NestedCase>)) -> (String, Pred, Vec<Attr>) {
    let (_, t, item, nested) = e;
    let name: Option<Ident> = names[*t].as_ref().map(|f| f.name.to_ident());
    let own = name.as_ref().map(|n| n.as_str().to_string()).unwrap_or("_".to_string());
    let mut attrs = vec![];
    let mut named = true;
    let subject = match item {
        Some(ItemCase::UnnamedField(pos)) if name.is_none() => format!("_{pos}"),
        Some(ItemCase::NamedField(_, n)) => { named = false; n.as_str().to_string() }
        Some(ItemCase::UnionVariant(_, n)) => { named = false; n.as_str().to_string() }
        Some(ItemCase::MapKey) => { named = false; "key".to_string() }
        Some(ItemCase::MapValue) => { named = false; "value".to_string() }
        Some(ItemCase::ListItem) | Some(ItemCase::SetItem) if name.is_none() => "element".to_string(),
        _ => own,
    };
    if !named { if let Some(n) = name { attrs.push(Attr::TypeName(n)) } }
    let mut pred = match &u.sh[*t] {
        Sh::Prim(p) if *p == Primitive::UNIT => { attrs.push(Attr::TypeName(Ident::from("Unit"))); Pred::Is }
        Sh::Prim(p) => { attrs.push(Attr::TypeName(Ident::try_from(p.to_string()).unwrap())); Pred::Is }
        Sh::Uni => Pred::Str,
        Sh::Enum(_) if u.is_char(*t) => Pred::Char,
        Sh::Enum(_) => Pred::Enum,
        Sh::Union(_) => Pred::Union,
        Sh::Tup(_) => Pred::Tuple,
        Sh::Str(_) => Pred::Rec,
        Sh::Arr(i, l) => { attrs.push(Attr::Len(*l)); if u.is_byte(*i) { Pred::Bytes } else { Pred::Array } }
        Sh::List(_, s) => { attrs.push(Attr::LenRange((*s).into())); Pred::List }
        Sh::Set(_, s) => { attrs.push(Attr::LenRange((*s).into())); Pred::Set }
        Sh::Map(_, _, s) => { attrs.push(Attr::LenRange((*s).into())); Pred::Map }
    };
    let id = |f: &Option<TypeFqn>| f.as_ref().map(|f| f.name.to_ident());
    for n in nested {
        match n {
            NestedCase::NewType(f) => attrs.push(Attr::Wrapped(id(f))),
            NestedCase::Option => attrs.push(Attr::Option),
            NestedCase::ByteStr => pred = Pred::Bytes,
            NestedCase::UniStr => pred = Pred::Str,
            NestedCase::AsciiStr(f) => {
                pred = Pred::Ascii;
                if let Some(i) = id(f) { attrs.push(Attr::AsciiEnum(i)) }
            }
            NestedCase::RStr(a, b, s) => {
                pred = Pred::Ascii;
                if let Some(i) = id(a) { attrs.push(Attr::AsciiFirst(i)) }
                if let Some(i) = id(b) { attrs.push(Attr::AsciiRest(i)) }
                attrs.push(Attr::LenRange((*s).into()));
            }
        }
    }
    if let Sh::Enum(v) = &u.sh[*t] {
        let mut v = v.clone();
        v.sort_by_key(|v| v.1);
        for (n, tag) in v { attrs.push(Attr::EnumVariant(tag, vn(n).to_ident())) }
    }
    if let Some(ItemCase::UnionVariant(tag, _)) = item { attrs.push(Attr::Tag(*tag)) }
    (subject, pred, attrs)
}
/// the same attributes, in any order
fn same_attrs(a: &[Attr], b: &[Attr]) -> bool {
    a.len() == b.len() && a.iter().all(|x| a.iter().filter(|y| *y == x).count() == b.iter().filter(|y| *y == x).count())
}
fn layout(v: &TypeVesper, u: &U, names: &[Option<TypeFqn>], e: &Exp, pos: &mut usize, depth: u32) {
    sym::check(*pos < e.out.len(), 7);
    let x = &e.out[*pos];
    *pos += 1;
    sym::check(x.0 == depth, 8);
    let (subject, pred, attrs) = vesper(u, names, x);
    sym::check(v.subject.as_str() == subject, 9);
    sym::check(v.predicate == pred, 10);
    sym::check(same_attrs(&v.attributes, &attrs), 11);
    for k in &v.content { layout(k, u, names, e, pos, depth + 1) }
}

fn usz() -> Sizing {
    let s = Sizing { min: sym::u64_(), max: sym::u64_() };
    sym::assume(s.min <= s.max);
    s
}
/// larger types, numbered from 100
fn big(n: usize) -> U {
    let mut u = U { sh: vec![], root: 0 };
    let unit = u.prim(Primitive::UNIT);
    let u8_ = u.prim(Primitive::U8);
    let u16_ = u.prim(Primitive::U16);
    let boole = u.add(Sh::Enum(vec![("false", 0), ("true", 1)]));
    let chr = u.add(Sh::Enum(vec![("lo", 97), ("c", 98)]));
    let opt = |u: &mut U, t| u.add(Sh::Union(vec![("none", 0, unit), ("some", 1, t)]));
    u.root = match n {
        // options of everything, between other fields
        0 => {
            let s = u.add(Sh::Str(vec![("xx", u8_), ("yy", boole)]));
            let (a, b, c) = (opt(&mut u, s), opt(&mut u, u8_), opt(&mut u, chr));
            let d = opt(&mut u, a);
            u.add(Sh::Str(vec![("aa", a), ("bb", u16_), ("cc", b), ("dd", c), ("ee", d), ("ff", u8_)]))
        }
        1 => {
            let nt = u.add(Sh::Tup(vec![u16_]));
            let nn = u.add(Sh::Tup(vec![nt]));
            let o = opt(&mut u, nn);
            let no = u.add(Sh::Tup(vec![o]));
            u.add(Sh::Union(vec![("aa", 3, nn), ("bb", 4, o), ("cc", 200, no), ("dd", 255, u8_)]))
        }
        2 => {
            let l = u.add(Sh::List(chr, usz()));
            let r = u.add(Sh::Tup(vec![chr, l]));
            let nr = u.add(Sh::Tup(vec![r]));
            let o = opt(&mut u, nr);
            let m = u.add(Sh::Map(r, o, usz()));
            u.add(Sh::Tup(vec![m, l, r, nr, u8_]))
        }
        3 => {
            let l = u.add(Sh::List(u8_, usz()));
            let ll = u.add(Sh::List(l, usz()));
            let s = u.add(Sh::Set(ll, usz()));
            let a = u.add(Sh::Arr(s, 3));
            let m = u.add(Sh::Map(a, ll, usz()));
            opt(&mut u, m)
        }
        4 => {
            // deep, then back to the top
            let a = u.add(Sh::Str(vec![("aa", u8_), ("ab", boole)]));
            let b = u.add(Sh::Tup(vec![a, a]));
            let c = u.add(Sh::Union(vec![("ca", 1, b), ("cb", 0, unit)]));
            let d = u.add(Sh::Arr(c, 2));
            u.add(Sh::Str(vec![("aa", d), ("bb", d), ("cc", u8_)]))
        }
        5 | 6 | 7 => {
            let names: Vec<&'static str> = (0..255).map(|i| &*Box::leak(tname(i).into_boxed_str())).collect();
            if n == 5 {
                u.add(Sh::Str(names.iter().enumerate().map(|(i, n)| (*n, if i == 254 { boole } else { u8_ })).collect()))
            } else if n == 6 {
                u.add(Sh::Union(names.iter().enumerate().map(|(i, n)| (*n, i as u8, if i == 254 { boole } else { u8_ })).collect()))
            } else {
                u.add(Sh::Tup((0..255).map(|i| if i == 254 { boole } else { u8_ }).collect()))
            }
        }
        8 => {
            let a = u.add(Sh::Tup(vec![chr]));
            let l = u.add(Sh::List(a, usz()));
            let r = u.add(Sh::Tup(vec![chr, l]));
            u.add(Sh::Str(vec![("aa", r), ("bb", l), ("cc", a)]))
        }
        _ => {
            let names: Vec<&'static str> = (0..255).map(|i| &*Box::leak(tname(i).into_boxed_str())).collect();
            let e = u.add(Sh::Enum(names.iter().enumerate().map(|(i, n)| (*n, i as u8)).collect()));
            u.add(Sh::Str(vec![("aa", e), ("bb", e)]))
        }
    };
    u
}

/// cfg: number of the type, + 1000 * which types are named (none, all, every other, root only)
pub fn h_tree() {
    let c = sym::config();
    let u = if c % 1000 >= 100 { big(c % 1000 - 100) } else { universe(c % 1000, usz) };
    let mode = c / 1000;
    let root = u.root;
    let (syms, names) = symbols(&u, &|i| match mode {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        _ => i == root,
    });
    let mut e = Exp { out: vec![] };
    e.walk(&u, &names, u.root, 0, None, vec![]);
    let sys = SymbolicSys::new(u.sys(), syms);
    let tree = sys.type_tree(u.root_id()).unwrap();
    sym::cover(1);
    compare(&u, &names, &e, &tree);
}

/// cfg: kind of the root type; its components are any two of a number of types, with symbolic
/// lengths, length bounds and tags, and any of them may have names
pub fn h_tree_any() {
    let c = sym::config();
    let mut u = U { sh: vec![], root: 0 };
    let unit = u.prim(Primitive::UNIT);
    let u8_ = u.prim(Primitive::U8);
    let u16_ = u.prim(Primitive::U16);
    let kind = sym::choice(18);
    let kid = |u: &mut U, kind: usize, uniq: usize| -> usize {
        match kind {
            0 => unit,
            1 => u8_,
            2 => u16_,
            3 => u.add(Sh::Uni),
            // maybe a set of characters
            4 => { let t = sym::u8_(); sym::assume(t != 98); u.add(Sh::Enum(vec![("lo", t), ("c", 98)])) }
            5 => u.add(Sh::Arr(u8_, sym::u16_())),
            6 => u.add(Sh::Arr(u16_, sym::u16_())),
            7 => { let s = usz(); u.add(Sh::List(u8_, s)) }
            8 => {
                let t = sym::u8_();
                sym::assume(t != 98);
                let e = u.add(Sh::Enum(vec![("lo", t), ("c", 98)]));
                let s = usz();
                u.add(Sh::List(e, s))
            }
            9 => { let i = u.add(Sh::Uni); let s = usz(); u.add(Sh::List(i, s)) }
            10 => {
                // maybe a restricted string
                let t = sym::u8_();
                sym::assume(t != 98);
                let e = u.add(Sh::Enum(vec![("lo", 97)]));
                let r = u.add(Sh::Enum(vec![("lo", t), ("c", 98)]));
                let s = usz();
                let l = u.add(Sh::List(r, s));
                u.add(Sh::Tup(vec![e, l]))
            }
            11 => { let i = u.add(Sh::Tup(vec![u16_])); u.add(Sh::Tup(vec![i])) }
            12 => u.add(Sh::Union(vec![("none", 0, unit), ("some", 1, u16_)])),
            13 => {
                // an option or something else which looks like one
                let (a, b) = (sym::u8_(), sym::u8_());
                sym::assume(a != b);
                let s = u.add(Sh::Str(vec![("aa", u16_)]));
                let o = [("none", a, unit), ("some", b, s)];
                u.add(Sh::Union(if a < b { o.to_vec() } else { vec![o[1], o[0]] }))
            }
            14 => u.add(Sh::Str(vec![("aa", u16_), ("bb", u8_)])),
            15 => { let s = usz(); u.add(Sh::Map(u16_, u8_, s)) }
            16 => { let s = usz(); u.add(Sh::Set(u8_, s)) }
            _ => { let i = u.add(Sh::Union(vec![("none", 0, unit), ("some", 1, u8_)])); let s = u.add(Sh::Str(vec![(if uniq == 0 { "aa" } else { "bb" }, i)])); u.add(Sh::Tup(vec![s])) }
        }
    };
    let a = kid(&mut u, kind, 0);
    let two = matches!(c, 1..=4 | 9);
    let b = if two { let k = sym::choice(18); kid(&mut u, k, 1) } else { a };
    u.root = match c {
        0 => u.add(Sh::Tup(vec![a])),
        1 => u.add(Sh::Tup(vec![a, b])),
        2 => u.add(Sh::Tup(vec![b, a, b])),
        3 => u.add(Sh::Str(vec![("xx", a), ("ab", b)])),
        4 => {
            let (s, t) = (sym::u8_(), sym::u8_());
            sym::assume(s != t);
            u.add(Sh::Union(vec![("xx", s, a), ("ab", t, b)]))
        }
        5 => u.add(Sh::Union(vec![("none", 0, unit), ("some", 1, a)])),
        6 => { let n = sym::u16_(); u.add(Sh::Arr(a, n)) }
        7 => { let s = usz(); u.add(Sh::List(a, s)) }
        8 => { let s = usz(); u.add(Sh::Set(a, s)) }
        _ => { let s = usz(); u.add(Sh::Map(a, b, s)) }
    };
    let root = u.root;
    let nr = sym::choice(2) == 1;
    let na = sym::choice(2) == 1;
    let (syms, names) = symbols(&u, &|i| if i == root { nr } else if i == a { na } else { i % 2 == 0 });
    let mut e = Exp { out: vec![] };
    e.walk(&u, &names, u.root, 0, None, vec![]);
    let sys = SymbolicSys::new(u.sys(), syms);
    let tree = sys.type_tree(u.root_id()).unwrap();
    sym::cover(1);
    compare(&u, &names, &e, &tree);
}
fn compare(u: &U, names: &[Option<TypeFqn>], e: &Exp, tree: &strict_types::typesys::TypeTree) {
    let mut n = 0;
    for info in tree {
        let info: TypeInfo = info;
        sym::check(n < e.out.len(), 1);
        let (depth, t, item, nested) = &e.out[n];
        sym::check(info.ty == u.ty(*t), 2);
        sym::check(info.fqn == names[*t], 3);
        sym::check(info.depth == *depth, 4);
        sym::check(info.item == *item, 5);
        sym::check(info.nested.len() == nested.len() && info.nested.iter().zip(nested).all(|(a, b)| a == b), 6);
        n += 1;
    }
    sym::check(n == e.out.len(), 1);
    let v = MemoryLayout::from(tree).to_vesper();
    let mut pos = 0;
    layout(&v, u, names, e, &mut pos, 0);
    sym::check(pos == e.out.len(), 7);
}
