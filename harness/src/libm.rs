//! C10, C11: libraries as a whole: compilation, conversion back and assembly.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, SmallOrdMap, TinyOrdMap, TinyOrdSet};
use strict_encoding::{FieldName, LibName, Primitive, StrictEncode, StrictWriter, TypeName, Variant, VariantName};
use strict_types::ast::{Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{ExternRef, ExternTypes, InlineRef, InlineRef1, InlineRef2};
use strict_types::typesys::{Error, TypeFqn};
use strict_types::*;

use crate::sym;
use crate::uni::{evars, S255};

// ---- type definitions over any kind of reference -----------------------------------------------

/// what a reference refers to
#[derive(Clone, PartialEq)]
pub enum R {
    /// a declaration of the same library, by index
    Named(usize),
    /// a declaration of another library
    Ext(usize, usize),
    /// a type given by its id
    Sem(SemId),
    /// a definition in place
    Emb(Box<D>),
}
/// a definition
#[derive(Clone, PartialEq)]
pub struct D {
    pub kind: usize,
    pub refs: Vec<R>,
    /// array length, tag or number, where the kind has one
    pub n: u16,
}
pub fn fname_(i: usize) -> FieldName { FieldName::try_from(["aa", "bb", "cc", "dd"][i].to_string()).unwrap() }
pub fn vname_(i: usize) -> VariantName { VariantName::try_from(["ax", "by", "cz", "dw"][i].to_string()).unwrap() }
/// number of references of a kind
pub fn arity(kind: usize) -> usize {
    match kind {
        0 | 8 | 9 => 0,
        1..=3 | 10 | 11 => 1,
        4..=7 => 2,
        _ => 3,
    }
}
/// 0 primitive, 1 list, 2 array, 3 set, 4 map, 5 tuple, 6 structure, 7 union, 8 enumeration,
/// 9 unicode character, 10 newtype, 11 union of one, 12 structure of three
pub fn ty<T: TypeRef>(kind: usize, r: Vec<T>, n: u16) -> Ty<T> {
    let mut r = r.into_iter();
    let mut f = || r.next().unwrap();
    match kind {
        0 => Ty::Primitive(Primitive::U8),
        1 => Ty::List(f(), S255),
        2 => Ty::Array(f(), n),
        3 => Ty::Set(f(), S255),
        4 => { let k = f(); Ty::Map(k, f(), S255) }
        5 => Ty::Tuple(UnnamedFields::try_from(vec![f(), f()]).ok().unwrap()),
        6 | 12 => Ty::Struct(NamedFields::try_from((0..if kind == 6 { 2 } else { 3 }).map(|i| Field { name: fname_(i), ty: f() }).collect::<Vec<_>>()).ok().unwrap()),
        7 | 11 => Ty::Union(
            UnionVariants::try_from((0..if kind == 7 { 2 } else { 1 }).map(|i| (Variant { name: vname_(i), tag: i as u8 + 3 }, f())).collect::<BTreeMap<_, _>>()).ok().unwrap(),
        ),
        8 => Ty::Enum(evars(&[("ax", 1), ("by", 5)])),
        9 => Ty::UnicodeChar,
        _ => Ty::Tuple(UnnamedFields::try_from(vec![f()]).ok().unwrap()),
    }
}
fn leaf(kind: usize) -> D { D { kind, refs: vec![], n: 0 } }
fn emb(kind: usize, refs: Vec<R>) -> R { R::Emb(Box::new(D { kind, refs, n: 7 })) }

const TN: [&str; 5] = ["Aa", "Bb", "Cc", "Dd", "Ee"];
fn tn_(i: usize) -> TypeName { TypeName::try_from(TN[i].to_string()).unwrap() }
fn ln_(i: usize) -> LibName { LibName::try_from(["Liba", "Libb", "Libc", "Libd"][i].to_string()).unwrap() }
fn id32(a: u8, b: u8) -> [u8; 32] {
    let mut id = [0x5A; 32];
    id[0] = a;
    id[31] = b;
    id
}
fn ext_sem(l: usize, t: usize) -> SemId { SemId::from(id32(l as u8, t as u8)) }
fn ext_lib(l: usize) -> TypeLibId { TypeLibId::from(id32(0xF0, l as u8)) }

impl R {
    fn symbolic(&self) -> TranspileRef {
        match self {
            R::Named(i) => TranspileRef::Named(tn_(*i)),
            R::Ext(l, t) => TranspileRef::Extern(SymbolRef::with(ln_(*l), tn_(*t), ext_lib(*l), ext_sem(*l, *t))),
            R::Sem(_) => sym::reject(),
            R::Emb(d) => TranspileRef::Embedded(Box::new(d.symbolic())),
        }
    }
    /// every reference, also in embedded definitions
    fn all<'a>(&'a self, out: &mut Vec<&'a R>) {
        out.push(self);
        if let R::Emb(d) = self { d.refs.iter().for_each(|r| r.all(out)) }
    }
}
impl D {
    fn symbolic(&self) -> Ty<TranspileRef> { ty(self.kind, self.refs.iter().map(R::symbolic).collect(), self.n) }
    fn all(&self) -> Vec<&R> {
        let mut out = vec![];
        self.refs.iter().for_each(|r| r.all(&mut out));
        out
    }
    fn depth(&self) -> usize { self.refs.iter().map(|r| if let R::Emb(d) = r { 1 + d.depth() } else { 0 }).max().unwrap_or(0) }
}
macro_rules! compiled {
    ($n:ident, $t:ident, $m:ident) => {
        fn $n(d: &D, named: &dyn Fn(usize) -> SemId, ext: &dyn Fn(usize, usize) -> ExternRef) -> Ty<$t> {
            ty(
                d.kind,
                d.refs
                    .iter()
                    .map(|r| match r {
                        R::Named(i) => $t::Named(named(*i)),
                        R::Sem(id) => $t::Named(*id),
                        R::Ext(l, t) => $t::Extern(ext(*l, *t)),
                        R::Emb(d) => $t::Inline($m(d, named, ext)),
                    })
                    .collect(),
                d.n,
            )
        }
    };
}
compiled!(lib_ty, LibRef, inl_ty);
compiled!(inl_ty, InlineRef, inl1_ty);
compiled!(inl1_ty, InlineRef1, inl2_ty);
fn inl2_ty(d: &D, named: &dyn Fn(usize) -> SemId, ext: &dyn Fn(usize, usize) -> ExternRef) -> Ty<InlineRef2> {
    ty(
        d.kind,
        d.refs
            .iter()
            .map(|r| match r {
                R::Named(i) => InlineRef2::Named(named(*i)),
                R::Sem(id) => InlineRef2::Named(*id),
                R::Ext(l, t) => InlineRef2::Extern(ext(*l, *t)),
                R::Emb(_) => sym::reject(),
            })
            .collect(),
        d.n,
    )
}

// ---- compilation (C10) -------------------------------------------------------------------------

fn bytes<T: StrictEncode>(t: &T, out: &mut Vec<u8>) {
    let w = t.strict_encode(StrictWriter::in_memory::<0xFFFFFF>()).unwrap();
    out.extend(w.unbox().unconfine());
}
/// a symbolic library with given parts; its fields are private, hence by way of its serialisation
fn symbolic_lib(name: usize, deps: &[usize], ext: &[(usize, Vec<usize>)], types: &[(usize, D)]) -> SymbolicLib {
    let mut b = vec![];
    bytes(&ln_(name), &mut b);
    let d = deps.iter().map(|l| Dependency::with(ext_lib(*l), ln_(*l))).collect::<BTreeSet<_>>();
    bytes(&TinyOrdSet::try_from(d).unwrap(), &mut b);
    let e: BTreeMap<LibName, SmallOrdMap<SemId, TypeName>> =
        ext.iter().map(|(l, t)| (ln_(*l), SmallOrdMap::try_from(t.iter().map(|t| (ext_sem(*l, *t), tn_(*t))).collect::<BTreeMap<_, _>>()).unwrap())).collect();
    let e: ExternTypes = TinyOrdMap::try_from(e).unwrap();
    bytes(&e, &mut b);
    let t: BTreeMap<TypeName, Ty<TranspileRef>> = types.iter().map(|(n, d)| (tn_(*n), d.symbolic())).collect();
    let t: amplify::confinement::NonEmptyOrdMap<TypeName, Ty<TranspileRef>> = Confined::try_from(t).ok().unwrap();
    bytes(&t, &mut b);
    SymbolicLib::from_strict_serialized::<0xFFFFFF>(Confined::try_from(b).unwrap()).ok().unwrap()
}

/// any reference; fewer kinds of embedded definitions if not rich
fn any_ref(rich: bool) -> R {
    match sym::choice(if rich { 10 } else { 7 }) {
        i @ 0..=3 => R::Named(i),
        4 => R::Ext(1, 0),
        5 => R::Ext(2, 0),
        6 => emb(5, vec![R::Named(sym::choice(3)), emb(9, vec![])]),
        7 => emb(1, vec![emb(7, vec![R::Named(1 + 2 * sym::choice(2)), R::Ext(1, 1)])]),
        8 => emb(10, vec![emb(10, vec![emb(2, vec![R::Named(sym::choice(3))])])]),
        _ => emb(10, vec![emb(6, vec![R::Ext(1, 2), emb(4, vec![R::Named(0), R::Ext(2, 1)])])]),
    }
}

/// cfg: kinds of the declarations Aa, Bb, Cc, 13s
pub fn h_compile() {
    let c = sym::config();
    let kinds = [c % 13, c / 13 % 13, c / 169];
    let mut decl: Vec<D> = vec![];
    let n = sym::u16_();
    for k in kinds {
        let d = D { kind: k, refs: (0..arity(k)).map(|i| any_ref(decl.is_empty() && i == 0)).collect(), n };
        decl.push(d)
    }
    // Libb is a dependency with three types, Libc is not known
    let lib = symbolic_lib(0, &[1], &[(1, vec![0, 1, 2])], &decl.iter().cloned().enumerate().collect::<Vec<_>>());
    let orig = lib.clone();
    // what is to come out
    let mut ok = true;
    let mut need = vec![BTreeSet::new(); 3];
    for (i, d) in decl.iter().enumerate() {
        for r in d.all() {
            match r {
                R::Named(3) | R::Ext(2, _) => ok = false,
                R::Named(j) => { need[i].insert(*j); }
                _ => {}
            }
        }
    }
    let mut done = BTreeSet::new();
    let mut order = vec![];
    while let Some(i) = (0..3).find(|i| !done.contains(i) && need[*i].is_subset(&done)) {
        done.insert(i);
        order.push(i);
    }
    ok &= order.len() == 3;
    match lib.compile() {
        Ok(lib) => {
            sym::cover(1);
            sym::check(ok, 1);
            sym::check(lib.name == ln_(0), 3);
            sym::check(lib.dependencies.len() == 1 && lib.dependencies.iter().all(|d| d.id == ext_lib(1) && d.name == ln_(1)), 3);
            sym::check(lib.types.len() == 3, 3);
            let mut ids = BTreeMap::new();
            for i in order {
                let Some(t) = lib.types.get(&tn_(i)) else { return sym::check(false, 3) };
                sym::check(*t == lib_ty(&decl[i], &|j| ids[&j], &|l, t| ExternRef::with(ext_lib(l), ext_sem(l, t))), 4);
                ids.insert(i, t.sem_id_named(&tn_(i)));
            }
            match lib.to_symbolic() {
                Ok(s) => sym::check(s == orig, 6),
                Err(_) => sym::check(false, 5),
            }
        }
        Err(e) => {
            sym::cover(2);
            sym::check(!ok, 2);
            if let CompileError::UnknownType { unknown, within } = e {
                sym::cover(3);
                let i = decl.iter().position(|d| d.symbolic() == within);
                sym::check(i.map(|i| decl[i].all().iter().any(|r| matches!(r, R::Named(n) if tn_(*n) == unknown))) == Some(true), 7);
            }
        }
    }
}

/// the same declarations compiled within two libraries; cfg: kinds as in h_compile
pub fn h_semid_lib() {
    let c = sym::config();
    let kinds = [c % 13, c / 13 % 13, c / 169];
    let mut decl: Vec<(usize, D)> = vec![];
    let n = sym::u16_();
    for k in kinds {
        let any = |i: usize| match sym::choice(if i == 0 { 4 } else { 3 }) {
            0 => R::Ext(1, 0),
            1 => R::Named((decl.len() + 1) % 3),
            2 => emb(5, vec![R::Named((decl.len() + 2) % 3), emb(9, vec![])]),
            _ => emb(10, vec![emb(6, vec![R::Ext(1, 2), emb(4, vec![R::Named((decl.len() + 1) % 3), R::Ext(1, 1)])])]),
        };
        let d = D { kind: k, refs: (0..arity(k)).map(any).collect(), n };
        decl.push((decl.len(), d))
    }
    let one = symbolic_lib(0, &[1], &[(1, vec![0, 1, 2])], &decl);
    // more declarations, another name and another dependency
    decl.insert(sym::choice(3), (3, D { kind: 1, refs: vec![R::Named(sym::choice(3))], n: 0 }));
    decl.push((4, D { kind: 3, refs: vec![R::Ext(3, 0)], n: 0 }));
    let two = symbolic_lib(2, &[1, 3], &[(1, vec![0, 1, 2]), (3, vec![0])], &decl);
    match (one.compile(), two.compile()) {
        (Ok(a), Ok(b)) => {
            sym::cover(1);
            for i in 0..3 {
                let (Some(x), Some(y)) = (a.types.get(&tn_(i)), b.types.get(&tn_(i))) else { return sym::check(false, 7) };
                sym::check(x.sem_id_named(&tn_(i)) == y.sem_id_named(&tn_(i)), 7);
                sym::check(x == y, 7)
            }
        }
        (a, b) => sym::check(a.is_err() && b.is_err(), 8),
    }
}

/// declarations and dependencies added to a library one by one
pub fn h_populate() {
    let mut lib = TypeLib {
        name: ln_(0),
        dependencies: TinyOrdSet::new(),
        extern_types: none(),
        types: Confined::try_from(BTreeMap::from([(tn_(1), ty::<LibRef>(0, vec![], 0))])).ok().unwrap(),
    };
    let mut decl = vec![(1, ty::<LibRef>(0, vec![], 0))];
    let mut deps: Vec<Dependency> = vec![];
    for _ in 0..3 {
        if sym::choice(2) == 0 {
            let (i, n) = (sym::choice(4), sym::u16_());
            let t = ty::<LibRef>(2, vec![LibRef::Named(ext_sem(0, 0))], n);
            let res = lib.populate(tn_(i), t.clone());
            if decl.iter().any(|d| d.0 == i) {
                sym::cover(1);
                sym::check(matches!(res, Err(CompileError::DuplicateName(n)) if n == tn_(i)), 1)
            } else {
                sym::check(res.is_ok(), 2);
                decl.push((i, t))
            }
        } else {
            let mut id = [9; 32];
            id[31] = sym::u8_();
            let dep = Dependency::with(TypeLibId::from(id), ln_(sym::choice(2)));
            let dup = deps.iter().any(|d| d.id == dep.id);
            let res = lib.import(dep.clone());
            if dup {
                sym::cover(2);
                sym::check(matches!(res, Err(CompileError::DuplicatedDependency(d)) if d.id == dep.id), 1)
            } else if deps.iter().all(|d| d.name != dep.name) {
                sym::check(res.is_ok(), 2);
                deps.push(dep)
            } else {
                // another library of the same name may be refused
                if res.is_ok() { deps.push(dep) }
            }
        }
        sym::check(lib.types.len() == decl.len() && lib.dependencies.len() == deps.len(), 3);
        for (i, t) in &decl { sym::check(lib.types.get(&tn_(*i)) == Some(t), 3) }
        for d in &deps { sym::check(lib.dependencies.iter().any(|x| x.id == d.id && x.name == d.name), 3) }
    }
}
fn none() -> ExternTypes { TinyOrdMap::new() }

// ---- assembly (C11) ----------------------------------------------------------------------------

struct L {
    lib: TypeLib,
    decl: Vec<(usize, D, SemId)>,
    deps: Vec<TypeLibId>,
}
/// the form of a definition inside a type system; inline definitions are added to `out`
fn sys_ty(d: &D, named: &dyn Fn(usize) -> SemId, ext: &dyn Fn(usize, usize) -> ExternRef, level: usize, out: &mut BTreeMap<SemId, Ty<SemId>>) -> Ty<SemId> {
    let r = d
        .refs
        .iter()
        .map(|r| match r {
            R::Named(i) => named(*i),
            R::Sem(id) => *id,
            R::Ext(l, t) => ext(*l, *t).sem_id,
            R::Emb(e) => {
                let t = sys_ty(e, named, ext, level + 1, out);
                let id = match level {
                    0 => inl_ty(e, named, ext).sem_id_unnamed(),
                    1 => inl1_ty(e, named, ext).sem_id_unnamed(),
                    _ => inl2_ty(e, named, ext).sem_id_unnamed(),
                };
                out.insert(id, t);
                id
            }
        })
        .collect();
    ty(d.kind, r, d.n)
}
const NOWHERE: [u8; 32] = [0xEE; 32];

/// cfg: kinds of the three types which refer to others, 13s; + 2197: references of the last one
/// are symbolic ids
pub fn h_assemble() {
    let c = sym::config();
    let kinds = [c % 13, c / 13 % 13, c / 169 % 13];
    let symbolic = c / 2197 == 1;
    let mut libs: Vec<L> = vec![];
    let mut expect: Vec<BTreeMap<SemId, Ty<SemId>>> = vec![];
    for l in 0..3 {
        // every library declares the same type Aa besides its own
        let decls: Vec<(usize, D)> = vec![
            (0, D { kind: 2, refs: vec![emb(0, vec![])], n: 500 }),
            (
                l + 1,
                D {
                    kind: kinds[l],
                    refs: (0..arity(kinds[l]))
                        .map(|_| match (l, sym::choice(if l == 2 { 2 } else { 4 })) {
                            // a type of the first or of the second library, or another one
                            (2, x) => {
                                let mut id = <[u8; 32]>::try_from(&libs[x].decl[x].2[..]).unwrap();
                                id[31] ^= if symbolic { sym::u8_() } else { sym::choice(2) as u8 };
                                R::Sem(SemId::from(id))
                            }
                            (_, 0) => emb(5, vec![R::Named(0), emb(1, vec![emb(10, vec![R::Named(0)])])]),
                            // not declared
                            (_, 1) => R::Named(4),
                            (0, 2) => R::Named(0),
                            (0, _) => emb(9, vec![]),
                            (_, 2) => R::Ext(0, 1),
                            (_, _) => emb(4, vec![emb(0, vec![]), R::Ext(0, 4)]),
                        })
                        .collect(),
                    n: 3,
                },
            ),
        ];
        let mut deps = vec![];
        let mut d = BTreeSet::new();
        for (i, o) in libs.iter().enumerate() {
            let mut id = <[u8; 32]>::try_from(&o.lib.id()[..]).unwrap();
            // maybe another version of the library
            if l == 2 && i == 1 { id[31] ^= sym::choice(2) as u8 }
            let id = TypeLibId::from(id);
            deps.push(id);
            d.insert(Dependency::with(id, ln_(i)));
        }
        let mut decl: Vec<(usize, D, SemId)> = vec![];
        let mut types = BTreeMap::new();
        let mut exp = BTreeMap::new();
        for (name, def) in decls {
            let (t, st) = {
                let named = |i: usize| decl.iter().find(|d| d.0 == i).map(|d| d.2).unwrap_or(SemId::from(NOWHERE));
                let ext = |l: usize, t: usize| {
                    let o: &L = &libs[l];
                    ExternRef::with(o.lib.id(), o.decl.iter().find(|d| d.0 == t).map(|d| d.2).unwrap_or(SemId::from(NOWHERE)))
                };
                (lib_ty(&def, &named, &ext), sys_ty(&def, &named, &ext, 0, &mut exp))
            };
            let id = t.sem_id_named(&tn_(name));
            exp.insert(id, st);
            types.insert(tn_(name), t);
            decl.push((name, def, id));
        }
        expect.push(exp);
        libs.push(L {
            lib: TypeLib { name: ln_(l), dependencies: TinyOrdSet::try_from(d).unwrap(), extern_types: none(), types: Confined::try_from(types).ok().unwrap() },
            decl,
            deps,
        });
    }
    let order: &[usize] = [&[0, 1, 2][..], &[2, 1, 0], &[1], &[1, 0], &[0, 2], &[0, 1, 0, 2, 1]][sym::choice(6)];
    let mut set = order.to_vec();
    set.sort();
    set.dedup();
    let build = |order: &[usize]| {
        let mut b = SystemBuilder::new();
        for l in order { b = b.import(libs[*l].lib.clone()).unwrap() }
        b.finalize()
    };
    let res = build(order);
    // what is to come out
    let mut exp: BTreeMap<SemId, Ty<SemId>> = BTreeMap::new();
    for l in &set { exp.extend(expect[*l].clone()) }
    let mut missing = BTreeSet::new();
    for t in exp.values() {
        for (r, _) in t.type_refs() { if !exp.contains_key(r) { missing.insert(*r); } }
    }
    let mut absent = vec![];
    for l in &set {
        for d in &libs[*l].deps { if !set.iter().any(|l| libs[*l].lib.id() == *d) { absent.push(*d) } }
    }
    let complete = missing.is_empty() && absent.is_empty();
    match &res {
        Ok(sys) => {
            sym::cover(1);
            sym::check(complete, 1);
            for l in &set {
                for (name, _, id) in &libs[*l].decl {
                    sym::check(sys.get(*id) == exp.get(id), 4);
                    let fqn = TypeFqn::with(ln_(*l), tn_(*name));
                    sym::check(sys.resolve(fqn.clone()) == Some(id), 5);
                    match sys.lookup(*id) {
                        None => sym::check(false, 5),
                        Some(f) => sym::check(*f == fqn || *name == 0 && f.name == tn_(0), 5),
                    }
                }
            }
            let types = sys.clone().into_type_system();
            sym::check(types.len() == exp.len(), 7);
            for (id, t) in &exp { sym::check(types.get(*id) == Some(t), 7) }
        }
        Err(errs) => {
            sym::cover(2);
            sym::check(!complete, 2);
            for m in &missing { sym::check(errs.iter().any(|e| matches!(e, Error::InnerTypeAbsent { unknown, .. } if unknown == m)), 3) }
            for d in &absent { sym::check(errs.iter().any(|e| matches!(e, Error::AbsentImport(x) if x.id == *d)), 3) }
        }
    }
    if order != &set[..] {
        match (&res, build(&set)) {
            (Ok(a), Ok(b)) => { sym::cover(3); sym::check(*a == b, 6) }
            (Err(a), Err(b)) => sym::check(a.len() == b.len() && a.iter().all(|x| b.contains(x)), 6),
            _ => sym::check(false, 6),
        }
    }
}
