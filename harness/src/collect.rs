//! C19: what is collected from Rust types whose structure is chosen by the solver. The types
//! implement strict encoding by the same calls which the derive macros make.
use std::collections::{BTreeMap, HashSet};
use std::io;
use std::marker::PhantomData;

use amplify::confinement::Confined;
use strict_encoding::{
    DefineStruct, DefineTuple, DefineUnion, FieldName, LibName, Primitive, Sizing, StrictDumb, StrictEncode, StrictEnum, StrictProduct, StrictStruct, StrictSum,
    StrictTuple, StrictType, StrictUnion, TypeName, TypedWrite, Variant, VariantError, VariantName, WriteStruct, WriteTuple, WriteUnion, LIB_EMBEDDED,
};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::*;

use crate::sym;

const LIB: &str = "Test";
const DEP: &str = "Dep";
const OWN: usize = 3;
const ALL: usize = 5;
/// stands for a number of any kind as the target of a reference
const PRIM: usize = ALL;
const NAMES: [&str; ALL] = ["Middle", "Zero", "Aaa", "Some", "Alpha"];
fn name(n: usize) -> TypeName { TypeName::try_from(NAMES[n].to_string()).unwrap() }
const FIELDS: [&str; 4] = ["bb", "aa", "longName", "a"];
/// as declared: not in the order of tags
const SETS: [&[(u8, &str)]; 3] = [&[(0, "zz"), (1, "aa")], &[(7, "mm"), (3, "zz"), (255, "aa")], &[(200, "single")]];

/// how a component refers to its target
#[derive(Copy, Clone, PartialEq)]
enum F { Plain, Boxed, Option, List, Set, Map, Array, Tuple, OptionBoxed, Unicode, RString }
const FORMS: [F; 11] = [F::Plain, F::Boxed, F::Option, F::List, F::Set, F::Map, F::Array, F::Tuple, F::OptionBoxed, F::Unicode, F::RString];
#[derive(Copy, Clone)]
struct C { form: F, to: usize, field: usize, prim: u8, size: Sizing, len: u16 }
const C0: C = C { form: F::Plain, to: PRIM, field: 0, prim: 1, size: Sizing { min: 0, max: 0 }, len: 0 };
/// kind: structure, tuple, enumeration, union of a tuple and a structure (or of unit and tuple)
#[derive(Copy, Clone)]
struct Node { kind: usize, set: usize, n: usize, c: [C; 3] }
static mut SPEC: [Node; ALL] = [Node { kind: 0, set: 0, n: 0, c: [C0; 3] }; ALL];
/// the component for which a type without a name of its own is asked at present
static mut CUR: C = C0;
fn spec(n: usize) -> Node { unsafe { SPEC[n] } }
fn cur() -> C { unsafe { CUR } }

// ---- the types ---------------------------------------------------------------------------------

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default)]
struct T<const N: usize>;
/// the same type as an enumeration, or union, with a set of variants
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default)]
struct E<const N: usize, const S: usize>;
const fn lib_of(n: usize) -> &'static str { if n < OWN { LIB } else { DEP } }
impl<const N: usize> StrictType for T<N> {
    const STRICT_LIB_NAME: &'static str = lib_of(N);
    fn strict_name() -> Option<TypeName> { Some(name(N)) }
}
impl<const N: usize, const S: usize> StrictType for E<N, S> {
    const STRICT_LIB_NAME: &'static str = lib_of(N);
    fn strict_name() -> Option<TypeName> { Some(name(N)) }
}
impl<const N: usize> StrictProduct for T<N> {}
impl<const N: usize> StrictStruct for T<N> { const ALL_FIELDS: &'static [&'static str] = &["aa"]; }
impl<const N: usize> StrictTuple for T<N> { const FIELD_COUNT: u8 = 1; }
impl<const N: usize, const S: usize> StrictSum for E<N, S> {
    const ALL_VARIANTS: &'static [(u8, &'static str)] = SETS[S];
    fn variant_name(&self) -> &'static str { SETS[S][0].1 }
}
impl<const N: usize, const S: usize> StrictUnion for E<N, S> {}
impl<const N: usize, const S: usize> StrictEnum for E<N, S> {}
impl<const N: usize, const S: usize> TryFrom<u8> for E<N, S> {
    type Error = VariantError<u8>;
    fn try_from(_: u8) -> Result<Self, VariantError<u8>> { Ok(E) }
}
impl<const N: usize, const S: usize> From<E<N, S>> for u8 { fn from(_: E<N, S>) -> u8 { SETS[S][0].0 } }

/// a number of a chosen kind
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default)]
struct P;
impl StrictType for P {
    const STRICT_LIB_NAME: &'static str = LIB_EMBEDDED;
    fn strict_name() -> Option<TypeName> { None }
}
impl StrictEncode for P {
    fn strict_encode<W: TypedWrite>(&self, w: W) -> io::Result<W> { Ok(unsafe { w.register_primitive(Primitive::from_code(cur().prim)) }) }
}
/// a collection of the target, or a text, as confined collections register them
struct Col<T>(C, PhantomData<T>);
impl<T> StrictType for Col<T> {
    const STRICT_LIB_NAME: &'static str = LIB_EMBEDDED;
    fn strict_name() -> Option<TypeName> { None }
}
impl<T> StrictDumb for Col<T> { fn strict_dumb() -> Self { Col(cur(), PhantomData) } }
impl<T: StrictEncode + StrictDumb> StrictEncode for Col<T> {
    fn strict_encode<W: TypedWrite>(&self, w: W) -> io::Result<W> {
        let c = self.0;
        let t = T::strict_dumb();
        Ok(unsafe {
            match c.form {
                F::List => w.register_list(&t, c.size),
                F::Set => w.register_set(&t, c.size),
                F::Map => w.register_map(&P, &t, c.size),
                F::Array => w.register_array(&t, c.len),
                F::Unicode => w.register_unicode(c.size),
                F::RString => w.register_rstring(&t, &T::strict_dumb(), c.size),
                _ => unreachable!(),
            }
        })
    }
}

/// calls with the type of the target
macro_rules! target {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = T<0>; $e }
            1 => { type $T = T<1>; $e }
            2 => { type $T = T<2>; $e }
            3 => { type $T = T<3>; $e }
            4 => { type $T = T<4>; $e }
            _ => { type $T = P; $e }
        }
    };
}
/// calls with the type of the component
macro_rules! component {
    ($c:expr, $X:ident => $e:expr) => {{
        let c: C = $c;
        unsafe { CUR = c }
        match c.form {
            F::Plain => target!(c.to, K => { type $X = K; $e }),
            F::Boxed => target!(c.to, K => { type $X = Box<K>; $e }),
            F::Option => target!(c.to, K => { type $X = Option<K>; $e }),
            F::OptionBoxed => target!(c.to, K => { type $X = Option<Box<K>>; $e }),
            F::Tuple => target!(c.to, K => { type $X = (K, u8); $e }),
            _ => target!(c.to, K => { type $X = Col<K>; $e }),
        }
    }};
}
impl<const N: usize> StrictEncode for T<N> {
    fn strict_encode<W: TypedWrite>(&self, w: W) -> io::Result<W> {
        match N {
            0 => encode::<0, W>(w),
            1 => encode::<1, W>(w),
            2 => encode::<2, W>(w),
            3 => encode::<3, W>(w),
            _ => encode::<4, W>(w),
        }
    }
}
fn field(c: &C) -> FieldName { FieldName::try_from(FIELDS[c.field].to_string()).unwrap() }
fn variant(s: usize, i: usize) -> VariantName { VariantName::try_from(SETS[s][i].1.to_string()).unwrap() }
fn encode<const N: usize, W: TypedWrite>(w: W) -> io::Result<W> {
    let n = spec(N);
    match n.kind {
        0 => w.write_struct::<T<N>>(|mut w| {
            for c in &n.c[..n.n] { w = component!(*c, X => w.write_field(field(c), &X::strict_dumb())?) }
            Ok(w.complete())
        }),
        1 => w.write_tuple::<T<N>>(|mut w| {
            for c in &n.c[..n.n] { w = component!(*c, X => w.write_field(&X::strict_dumb())?) }
            Ok(w.complete())
        }),
        2 => match n.set {
            0 => w.write_enum(E::<N, 0>),
            1 => w.write_enum(E::<N, 1>),
            _ => w.write_enum(E::<N, 2>),
        },
        _ => match n.set {
            0 => w.write_union::<E<N, 0>>(|u| union(u, n)),
            1 => w.write_union::<E<N, 1>>(|u| union(u, n)),
            _ => w.write_union::<E<N, 2>>(|u| union(u, n)),
        },
    }
}
/// the first variant has all components as named fields, the second one as a tuple, the third
/// one has none
fn union<W: Sized, U: DefineUnion<Parent = W>>(mut u: U, n: Node) -> io::Result<W>
where U::UnionWriter: WriteUnion<Parent = W> {
    let variants = SETS[n.set].len();
    for i in 0..variants {
        let v = variant(n.set, i);
        u = match i {
            0 => u.define_struct(v, |mut d| {
                for c in &n.c[..n.n] { d = component!(*c, X => d.define_field::<X>(field(c))) }
                d.complete()
            }),
            1 => u.define_tuple(v, |mut d| {
                for c in &n.c[..n.n] { d = component!(*c, X => d.define_field::<X>()) }
                d.complete()
            }),
            _ => u.define_unit(v),
        }
    }
    let u = u.complete();
    let u = match variants {
        1 => u.write_struct(variant(n.set, 0), |mut w| {
            for c in &n.c[..n.n] { w = component!(*c, X => w.write_field(field(c), &X::strict_dumb())?) }
            Ok(w.complete())
        })?,
        2 => u.write_tuple(variant(n.set, 1), |mut w| {
            for c in &n.c[..n.n] { w = component!(*c, X => w.write_field(&X::strict_dumb())?) }
            Ok(w.complete())
        })?,
        _ => u.write_unit(variant(n.set, 2))?,
    };
    Ok(u.complete())
}

// ---- what is expected --------------------------------------------------------------------------

struct Dep { dep: Dependency, ids: [SemId; ALL] }
fn emb(t: Ty<TranspileRef>) -> TranspileRef { TranspileRef::Embedded(Box::new(t)) }
fn tuple(l: Vec<TranspileRef>) -> Ty<TranspileRef> { Ty::Tuple(UnnamedFields::try_from(l).ok().unwrap()) }
fn expect(c: &C, d: Option<&Dep>) -> TranspileRef {
    let prim = || emb(Ty::Primitive(Primitive::from_code(c.prim)));
    let t = match c.to {
        PRIM => prim(),
        k => match d {
            Some(d) if k >= OWN => TranspileRef::Extern(SymbolRef::with(LibName::from(DEP), name(k), d.dep.id, d.ids[k])),
            _ => TranspileRef::Named(name(k)),
        },
    };
    match c.form {
        F::Plain | F::Boxed => t,
        F::Option | F::OptionBoxed => emb(Ty::Union(UnionVariants::try_from(BTreeMap::from([
            (Variant::named(0, VariantName::from("none")), emb(Ty::UNIT)),
            (Variant::named(1, VariantName::from("some")), emb(tuple(vec![t]))),
        ])).ok().unwrap())),
        F::List => emb(Ty::List(t, c.size)),
        F::Set => emb(Ty::Set(t, c.size)),
        F::Map => emb(Ty::Map(prim(), t, c.size)),
        F::Array => emb(Ty::Array(t, c.len)),
        F::Tuple => emb(tuple(vec![t, emb(Ty::U8)])),
        F::Unicode => emb(Ty::List(emb(Ty::UnicodeChar), c.size)),
        F::RString => emb(tuple(vec![t.clone(), emb(Ty::List(t, Sizing { min: c.size.min - 1, max: c.size.max - 1 }))])),
    }
}
/// the definition of the type; its references to types of the dependency are given by the latter
fn definition(n: usize, d: Option<&Dep>) -> Ty<TranspileRef> {
    let s = spec(n);
    let refs = || s.c[..s.n].iter().map(|c| expect(c, d)).collect::<Vec<_>>();
    let fields = || Ty::Struct(NamedFields::try_from(s.c[..s.n].iter().map(|c| Field { name: field(c), ty: expect(c, d) }).collect::<Vec<_>>()).ok().unwrap());
    match s.kind {
        0 => fields(),
        1 => tuple(refs()),
        2 => {
            let v = SETS[s.set].iter().map(|(t, n)| Variant::named(*t, VariantName::from(*n))).collect::<std::collections::BTreeSet<_>>();
            Ty::Enum(EnumVariants::try_from(v).ok().unwrap())
        }
        _ => Ty::Union(UnionVariants::try_from(SETS[s.set].iter().enumerate().map(|(i, (t, n))| (Variant::named(*t, VariantName::from(*n)), match i {
            0 => emb(fields()),
            1 => emb(tuple(refs())),
            _ => emb(Ty::UNIT),
        })).collect::<BTreeMap<_, _>>()).ok().unwrap()),
    }
}
fn needs(n: usize, seen: &mut [bool; ALL]) {
    if seen[n] { return }
    seen[n] = true;
    let s = spec(n);
    if s.kind == 2 { return }
    for c in &s.c[..s.n] { if c.to != PRIM && c.form != F::Unicode { needs(c.to, seen) } }
}
fn sizing() -> Sizing {
    let s = Sizing { min: sym::u64_(), max: sym::u64_() };
    sym::assume(s.min >= 1 && s.min <= s.max);
    s
}
fn comp(form: F, to: usize, field: usize) -> C {
    C { form, to, field, prim: sym::u8_(), size: sizing(), len: sym::u16_() }
}
/// types are collected in this order
const ORDERS: [&[usize]; 8] = [&[0, 1, 2], &[2, 1, 0], &[1, 0, 2], &[2, 0, 1], &[0], &[1], &[1, 0, 1], &[2]];

/// cfg: kind of the first type, 10s: its set of variants, 100s: kind of the type of the
/// dependency, 1000s: form of the reference of the second type, 10000s: second reference of the
/// first type
pub fn h_collect() {
    let c = sym::config();
    sym::const_digests();
    let form = FORMS[sym::choice(FORMS.len())];
    // types refer to types with higher numbers; characters are of an enumeration
    let to = if form == F::RString { [2, 4][sym::choice(2)] } else { 1 + sym::choice(5) };
    let to2 = [PRIM, 1, 3, to][c as usize / 10000 % 4];
    let nodes = [
        Node { kind: c % 10, set: c / 10 % 10, n: 2, c: [comp(form, to, 0), comp(F::Plain, to2, 1), C0] },
        Node { kind: [1, 0, 3, 0][c / 10 % 4], set: 0, n: 2, c: [comp(FORMS[c / 1000 % 10], 2, 2), comp(F::Plain, 4, 3), C0] },
        Node { kind: 2, set: c / 100 % 3, n: 0, c: [C0; 3] },
        Node { kind: [0, 1, 3][c / 100 % 3], set: 1, n: 2, c: [comp(F::Plain, PRIM, 0), comp(FORMS[c % 4], 4, 1), C0] },
        Node { kind: 2, set: 1, n: 0, c: [C0; 3] },
    ];
    unsafe { SPEC = nodes }

    // the dependency, as a library of its own
    let whole = sym::choice(2) == 0;
    let b = LibBuilder::with(DEP, []).transpile::<T<4>>();
    let b = if whole { b.transpile::<T<3>>() } else { b };
    let dep = b.compile().unwrap();
    let mut ids = [SemId::unit(); ALL];
    for k in OWN..ALL { if let Some(t) = dep.types.get(&name(k)) { ids[k] = t.sem_id_named(&name(k)) } }
    let other = LibBuilder::with("Other", []).transpile::<Unused>().compile().unwrap();
    let d = Dep { dep: dep.to_dependency(), ids };
    let known: Vec<(Dependency, HashSet<SemId>)> = vec![other.to_dependency_types(), dep.to_dependency_types()];

    let roots = ORDERS[sym::choice(ORDERS.len())];
    let mut b = LibBuilder::with(LIB, known);
    for r in roots {
        b = match r {
            0 => b.transpile::<T<0>>(),
            1 => b.transpile::<T<1>>(),
            _ => b.transpile::<T<2>>(),
        }
    }
    let mut need = [false; ALL];
    for r in roots { needs(*r, &mut need) }
    let missing = need[3] && !whole;
    match b.compile_symbols() {
        Err(TranspileError::DependencyMissesType(l, _, n)) => {
            sym::cover(2);
            sym::check(missing, 1);
            sym::check(l == LibName::from(DEP) && n == name(3), 2);
        }
        Err(_) => sym::check(false, 1),
        Ok(l) => {
            sym::cover(1);
            sym::check(!missing, 3);
            sym::check(l.name() == &LibName::from(LIB), 4);
            sym::check(l.types().len() == need[..OWN].iter().filter(|n| **n).count(), 5);
            for k in 0..OWN {
                if !need[k] { continue }
                match l.types().get(&name(k)) {
                    None => sym::check(false, 5),
                    Some(t) => sym::check(t == &definition(k, Some(&d)), 6),
                }
            }
            let used = need[OWN..].iter().any(|n| *n);
            sym::check(l.dependencies().len() == used as usize, 7);
            if used {
                let u = l.dependencies().iter().next().unwrap();
                sym::check(u.id == d.dep.id && u.name == d.dep.name, 7);
            }
            let n: usize = l.extern_types().iter().map(|(_, m)| m.len()).sum();
            sym::check(n == need[OWN..].iter().filter(|n| **n).count(), 8);
            for k in OWN..ALL {
                if !need[k] { continue }
                let e = l.extern_types().get(&LibName::from(DEP)).and_then(|m| m.get(&d.ids[k]));
                sym::check(e == Some(&name(k)), 8);
            }
        }
    }
}
#[derive(Copy, Clone, Default)]
struct Unused;
impl StrictType for Unused {
    const STRICT_LIB_NAME: &'static str = "Other";
    fn strict_name() -> Option<TypeName> { Some(TypeName::from("Unused")) }
}
impl StrictProduct for Unused {}
impl StrictTuple for Unused { const FIELD_COUNT: u8 = 1; }
impl StrictEncode for Unused {
    fn strict_encode<W: TypedWrite>(&self, w: W) -> io::Result<W> { w.write_newtype::<Self>(&0u8) }
}
