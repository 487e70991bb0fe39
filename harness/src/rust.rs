//! C06: Rust types with derived strict encoding, read natively and by way of their collected
//! definitions.
#![allow(clippy::type_complexity)]
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

use amplify::ascii::AsciiString;
use amplify::confinement::{Confined, LargeVec, MediumVec, SmallVec, TinyOrdMap, TinyOrdSet, TinyVec, U16 as MAX16, U32 as MAX32};
use amplify::num::{u24, u40, u48, u56};
use strict_encoding::stl::{AlphaCaps, AlphaNum, AlphaSmall, AsciiSym, Bool, Dec, U4};
use strict_encoding::{
    DecodeError, LibName, RString, StreamReader, StrictDecode, StrictDumb, StrictEncode, StrictReader, StrictType, StrictWriter, U2, U5,
};
use strict_types::typesys::TypeFqn;
use strict_types::value::{EnumTag, StrictNum};
use strict_types::*;

use crate::sym;
use crate::uni::same_bytes;

const DEP: &str = "Dep";
const LIB: &str = "Test";

// ---- the types ---------------------------------------------------------------------------------

macro_rules! st {
    ($d:ident $lib:ident $n:ident { $($f:ident : $t:ty),* $(,)? } $($e:expr)?) => {
        #[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, $d, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib $(, dumb = { $e })?)]
        struct $n { $($f: $t),* }
        impl Shown for $n {
            fn shown(&self, v: &StrictVal) -> bool {
                let StrictVal::Struct(m) = v else { return false };
                let names: &[&str] = &[$(stringify!($f)),*];
                m.len() == names.len() && m.keys().zip(names).all(|(a, b)| camel(a.as_str(), b)) $(&& self.$f.shown(at(v, stringify!($f))))*
            }
        }
    };
    ($d:ident $lib:ident $n:ident ( $($i:tt : $t:ty),* $(,)? ) $($e:expr)?) => {
        #[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, $d, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = $lib $(, dumb = { $e })?)]
        struct $n ( $($t),* );
        impl Shown for $n {
            fn shown(&self, v: &StrictVal) -> bool {
                let StrictVal::Tuple(m) = v else { return false };
                m.len() == [$($i),*].len() $(&& self.$i.shown(&m[$i]))*
            }
        }
    };
}
/// the derive names fields in camel case
fn camel(a: &str, b: &str) -> bool {
    let mut s = String::new();
    let mut up = false;
    for c in b.chars() {
        if c == '_' { up = true } else if up { s.push(c.to_ascii_uppercase()); up = false } else { s.push(c) }
    }
    a == s
}
fn at<'a>(v: &'a StrictVal, f: &str) -> &'a StrictVal {
    let StrictVal::Struct(m) = v else { unreachable!() };
    m.iter().find(|(k, _)| camel(k.as_str(), f)).unwrap().1
}

st!(Default DEP Foo { a: u8, long_name: u16 });
st!(Default DEP Wrap(0: Foo));

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = DEP, tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
enum Prim { #[default] A = 1, Bb = 2, LongName = 200 }
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
enum Ordered { Zz = 7, #[default] Bb = 0, Aa = 3 }
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = order)]
enum Msg { Unit, One(u16), Two(u8, Prim), Named { x_y: u8, foo: Foo }, List(TinyVec<u8>) }
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = custom)]
enum Tagged {
    #[strict_type(tag = 0xFF)]
    Last(Prim),
    #[strict_type(tag = 5)]
    Big(u32),
    #[strict_type(tag = 6)]
    Nest(Box<Foo>, TinyVec<u8>),
}
impl Shown for Prim {
    fn shown(&self, v: &StrictVal) -> bool { enumer(v, match self { Prim::A => "a", Prim::Bb => "bb", Prim::LongName => "longName" }) }
}
impl Shown for Ordered {
    fn shown(&self, v: &StrictVal) -> bool { enumer(v, match self { Ordered::Zz => "zz", Ordered::Bb => "bb", Ordered::Aa => "aa" }) }
}
fn enumer(v: &StrictVal, n: &str) -> bool { matches!(v, StrictVal::Enum(EnumTag::Name(m)) if m.as_str() == n) }
fn un<'a>(v: &'a StrictVal, n: &str) -> Option<&'a StrictVal> {
    match v { StrictVal::Union(EnumTag::Name(m), u) if m.as_str() == n => Some(u), _ => None }
}
fn tup(v: Option<&StrictVal>, n: usize) -> Option<&[StrictVal]> {
    match v { Some(StrictVal::Tuple(l)) if l.len() == n => Some(l), _ => None }
}
impl Shown for Msg {
    fn shown(&self, v: &StrictVal) -> bool {
        match self {
            Msg::Unit => matches!(un(v, "unit"), Some(StrictVal::Unit)),
            Msg::One(a) => tup(un(v, "one"), 1).is_some_and(|t| a.shown(&t[0])),
            Msg::Two(a, b) => tup(un(v, "two"), 2).is_some_and(|t| a.shown(&t[0]) && b.shown(&t[1])),
            Msg::Named { x_y, foo } => match un(v, "named") {
                Some(s @ StrictVal::Struct(m)) => m.len() == 2 && x_y.shown(at(s, "x_y")) && foo.shown(at(s, "foo")),
                _ => false,
            },
            Msg::List(l) => tup(un(v, "list"), 1).is_some_and(|t| l.shown(&t[0])),
        }
    }
}
impl Shown for Tagged {
    fn shown(&self, v: &StrictVal) -> bool {
        match self {
            Tagged::Last(a) => tup(un(v, "last"), 1).is_some_and(|t| a.shown(&t[0])),
            Tagged::Big(a) => tup(un(v, "big"), 1).is_some_and(|t| a.shown(&t[0])),
            Tagged::Nest(a, b) => tup(un(v, "nest"), 2).is_some_and(|t| a.shown(&t[0]) && b.shown(&t[1])),
        }
    }
}

type Str<const A: usize, const B: usize> = RString<AlphaCaps, AlphaNum, A, B>;
st!(StrictDumb LIB Unsigned { a: u8, b: u16, c: u24, d: u32, e: u40, f: u48, g: u56, h: u64 });
st!(StrictDumb LIB Signed { a: i8, b: i16, c: i32, d: i64 });
st!(Default LIB Pair(0: u16, 1: Foo));
st!(StrictDumb LIB Units { a: (), b: u8, c: () });
st!(StrictDumb LIB Enums { a: Prim, b: Ordered, c: U2, d: Bool });
st!(StrictDumb LIB Small { a: U4, b: U2 });
st!(StrictDumb LIB Small5(0: U5));
st!(StrictDumb LIB Chars { c: AlphaSmall, d: Dec });
st!(StrictDumb LIB Unions(0: Tagged, 1: Ordered));
impl Default for Tagged { fn default() -> Self { Tagged::Big(0) } }
impl Default for Msg { fn default() -> Self { Msg::Unit } }
st!(Default LIB OptPrim { o: Option<Prim>, p: Option<()> });
st!(Default LIB Opts { a: Option<u16>, b: Option<OptPrim>, c: Option<Foo> });
st!(StrictDumb LIB Bytes { a: TinyVec<u8>, b: [u8; 2], c: amplify::Array<u8, 3> });
st!(StrictDumb LIB Bytes2(0: SmallVec<u8>));
st!(StrictDumb LIB Bytes3(0: MediumVec<u8>));
st!(StrictDumb LIB Bytes4(0: LargeVec<u8>));
st!(StrictDumb LIB Bounded { a: Confined<Vec<u8>, 1, 3>, b: Confined<Vec<u16>, 1, 2> } Bounded { a: Confined::with(0), b: Confined::with(0) });
st!(StrictDumb LIB Arrays { a: [u16; 2], b: [Prim; 2], c: [u8; 1] });
st!(StrictDumb LIB Lists { a: TinyVec<u16>, b: Confined<VecDeque<Foo>, 0, 2> });
st!(StrictDumb LIB ListsOf(0: TinyVec<Confined<Vec<u8>, 0, 2>>));
st!(StrictDumb LIB UnionList(0: Confined<Vec<Msg>, 0, 300>));
st!(StrictDumb LIB Sets(0: TinyOrdSet<u8>, 1: Confined<BTreeSet<i16>, 0, 2>));
st!(StrictDumb LIB SetsOf(0: TinyOrdSet<Ordered>));
st!(StrictDumb LIB SetsOfStructs(0: Confined<BTreeSet<Foo>, 1, 3>) SetsOfStructs(Confined::with(Foo::default())));
st!(StrictDumb LIB Maps { a: TinyOrdMap<u8, Foo>, b: Confined<BTreeMap<Prim, u8>, 1, 2> } Maps { a: Default::default(), b: Confined::with((Prim::A, 0)) });
st!(StrictDumb LIB MapsOf(0: TinyOrdMap<u16, OptPrim>));
st!(StrictDumb LIB MapsOfMaps(0: TinyOrdMap<u8, Confined<BTreeMap<u8, ()>, 0, 2>>));
st!(StrictDumb LIB Texts(0: Confined<String, 0, 255>, 1: Confined<String, 1, 300>) Texts(Default::default(), Confined::try_from("a".to_string()).unwrap()));
st!(StrictDumb LIB Asciis(0: Confined<AsciiString, 1, 255>) Asciis(Confined::try_from(AsciiString::from_ascii("a").unwrap()).unwrap()));
st!(StrictDumb LIB Names(0: Str<1, 4>));
st!(StrictDumb LIB Names2(0: Str<2, 300>));
st!(StrictDumb LIB Names3(0: RString<AlphaSmall, Dec, 1, 3>));
st!(StrictDumb LIB Boxed { a: Box<Foo>, b: Box<Pair>, c: Option<Box<Wrap>> });
st!(StrictDumb LIB Deep { a: Pair, b: Option<Wrap>, c: TinyVec<Opts> });

// ---- showing the same data ---------------------------------------------------------------------

trait Shown { fn shown(&self, v: &StrictVal) -> bool; }
macro_rules! num {
    ($($t:ty),*) => { $(impl Shown for $t {
        fn shown(&self, v: &StrictVal) -> bool { matches!(v, StrictVal::Number(StrictNum::Uint(n)) if *n == u64::from(*self)) }
    })* };
}
num!(u8, u16, u24, u32, u40, u48, u56, u64);
macro_rules! int {
    ($($t:ty),*) => { $(impl Shown for $t {
        fn shown(&self, v: &StrictVal) -> bool { match v {
            StrictVal::Number(StrictNum::Int(n)) => *n == i64::from(*self),
            StrictVal::Number(StrictNum::Uint(n)) => *self >= 0 && *n == *self as u64,
            _ => false,
        } }
    })* };
}
int!(i8, i16, i32, i64);
impl Shown for () { fn shown(&self, v: &StrictVal) -> bool { matches!(v, StrictVal::Unit) } }
/// small numbers and characters of the standard library: enumerations, shown by the name
macro_rules! named {
    ($($t:ty),*) => { $(impl Shown for $t {
        fn shown(&self, v: &StrictVal) -> bool { enumer(v, strict_encoding::StrictSum::variant_name(self)) }
    })* };
}
named!(U2, U4, U5, Bool, AlphaSmall, Dec);
impl<T: Shown> Shown for Box<T> { fn shown(&self, v: &StrictVal) -> bool { (**self).shown(v) } }
impl<T: Shown> Shown for Option<T> {
    fn shown(&self, v: &StrictVal) -> bool {
        match self {
            None => matches!(un(v, "none"), Some(StrictVal::Unit)),
            Some(x) => tup(un(v, "some"), 1).is_some_and(|t| x.shown(&t[0])),
        }
    }
}
fn items<'a, T: Shown + 'static>(n: usize, i: impl Iterator<Item = &'a T>, l: &[StrictVal]) -> bool {
    n == l.len() && i.zip(l).all(|(a, b)| a.shown(b))
}
/// bytes are shown as bytes, other lists as lists
fn list<'a, T: Shown + StrictType + 'static>(n: usize, i: impl Iterator<Item = &'a T>, v: &StrictVal) -> bool {
    if T::strict_name() == u8::strict_name() {
        let StrictVal::Bytes(b) = v else { return false };
        n == b.0.len() && i.zip(&b.0).all(|(a, b)| a.shown(&StrictVal::num(*b)))
    } else {
        let StrictVal::List(l) = v else { return false };
        items(n, i, l)
    }
}
impl<T: Shown + StrictType + 'static, const A: usize, const B: usize> Shown for Confined<Vec<T>, A, B> {
    fn shown(&self, v: &StrictVal) -> bool { list(self.len(), self.iter(), v) }
}
impl<T: Shown + StrictType + 'static, const A: usize, const B: usize> Shown for Confined<VecDeque<T>, A, B> {
    fn shown(&self, v: &StrictVal) -> bool { list(self.len(), self.iter(), v) }
}
impl<T: Shown + StrictType + 'static, const N: usize> Shown for [T; N] {
    fn shown(&self, v: &StrictVal) -> bool { list(N, self.iter(), v) }
}
impl<const N: usize> Shown for amplify::Array<u8, N> {
    fn shown(&self, v: &StrictVal) -> bool { list(N, self.iter(), v) }
}
impl<T: Shown + Ord + 'static, const A: usize, const B: usize> Shown for Confined<BTreeSet<T>, A, B> {
    fn shown(&self, v: &StrictVal) -> bool { matches!(v, StrictVal::Set(l) if items(self.len(), self.iter(), l)) }
}
impl<K: Shown + Ord + std::hash::Hash, T: Shown, const A: usize, const B: usize> Shown for Confined<BTreeMap<K, T>, A, B> {
    fn shown(&self, v: &StrictVal) -> bool {
        let StrictVal::Map(l) = v else { return false };
        l.len() == self.len() && self.iter().zip(l).all(|((k, t), (a, b))| k.shown(a) && t.shown(b))
    }
}
fn text(s: &str, v: &StrictVal) -> bool { matches!(v, StrictVal::String(t) if same_bytes(t.as_bytes(), s.as_bytes())) }
impl<const A: usize, const B: usize> Shown for Confined<String, A, B> { fn shown(&self, v: &StrictVal) -> bool { text(self.as_str(), v) } }
impl<const A: usize, const B: usize> Shown for Confined<AsciiString, A, B> {
    // the character set has control characters, hence not shown as text
    fn shown(&self, v: &StrictVal) -> bool {
        let StrictVal::List(l) = v else { return false };
        let code = |v: &StrictVal| match v {
            StrictVal::Enum(EnumTag::Name(m)) => <AsciiSym as strict_encoding::StrictSum>::ALL_VARIANTS.iter().find(|(_, n)| *n == m.as_str()).map(|(t, _)| *t),
            _ => None,
        };
        l.len() == self.len() && self.as_str().bytes().zip(l).all(|(a, b)| code(b) == Some(a))
    }
}
impl<C1: strict_encoding::RestrictedCharSet, C: strict_encoding::RestrictedCharSet, const A: usize, const B: usize> Shown for RString<C1, C, A, B> {
    fn shown(&self, v: &StrictVal) -> bool { text(self.as_str(), v) }
}

// ---- the check ---------------------------------------------------------------------------------

/// the definition of the type as collected and compiled from the Rust type
fn system<T: StrictEncode + StrictDumb>(std: bool) -> (TypeSystem, SemId) {
    let dep = LibBuilder::with(DEP, []).transpile::<Wrap>().transpile::<Prim>().compile().unwrap();
    let mut known: Vec<(Dependency, HashSet<SemId>)> = vec![dep.to_dependency_types()];
    let mut b = SystemBuilder::new().import(dep).unwrap();
    if std {
        let l = LibBuilder::with("Std", [])
            .transpile::<Bool>().transpile::<U2>().transpile::<U4>().transpile::<U5>()
            .transpile::<AlphaCaps>().transpile::<AlphaNum>().transpile::<AlphaSmall>().transpile::<Dec>()
            .transpile::<AsciiSym>()
            .compile().unwrap();
        known.push(l.to_dependency_types());
        b = b.import(l).unwrap();
    }
    let lib = LibBuilder::with(LIB, known).transpile::<T>().compile().unwrap();
    let sys = b.import(lib).unwrap().finalize().unwrap();
    let id = *sys.to_sem_id(TypeFqn::with(LibName::from(LIB), T::strict_name().unwrap())).as_ref().unwrap();
    (sys.as_types().clone(), id)
}
/// the natively read list of items is allocated by its length prefix
fn prefix<T: 'static>(data: &[u8]) {
    let t = std::any::TypeId::of::<T>();
    let zero = if t == std::any::TypeId::of::<UnionList>() { 1..2 } else if t == std::any::TypeId::of::<Bytes4>() { 2..4 } else { 0..0 };
    for i in zero { if i < data.len() { sym::assume(data[i] == 0) } }
}
fn agree<T: StrictEncode + StrictDecode + StrictDumb + Shown + 'static>(n: usize, std: bool) {
    let (sys, id) = system::<T>(std);
    let data: Vec<u8> = (0..n).map(|_| sym::u8_()).collect();
    prefix::<T>(&data);
    let mut r = StrictReader::in_memory::<MAX16>(&data[..]);
    let native = T::strict_decode(&mut r);
    let used = r.into_cursor().position() as usize;
    let mut cur = StreamReader::cursor::<MAX32>(&data[..]);
    let refl = sys.strict_read_type(id, &mut cur);
    let rused = cur.unconfine().position() as usize;
    match (native, refl) {
        (Ok(t), Ok(v)) => {
            sym::cover(1);
            sym::check(used == rused, 2);
            sym::check(t.shown(v.as_val()), 3);
            let a = t.strict_encode(StrictWriter::in_memory::<MAX16>()).unwrap().unbox().unconfine();
            let b = sys.strict_serialize_value::<MAX16>(&v);
            sym::check(b.is_ok_and(|b| same_bytes(&b, &a)), 4);
        }
        (Err(_), Err(_)) => sym::cover(2),
        (Ok(_), Err(_)) => sym::check(false, 5),
        (Err(DecodeError::BrokenSetOrder | DecodeError::BrokenMapOrder), Ok(_)) => sym::check(false, 7),
        (Err(_), Ok(_)) => sym::check(false, 6),
    }
}

macro_rules! types {
    ($c:expr, $n:expr; $($i:literal $t:ident $s:literal)*) => { match $c { $($i => agree::<$t>($n, $s),)* _ => sym::reject() } };
}
/// cfg: type + 100 * number of bytes
pub fn h_agree() {
    let c = sym::config();
    types!(c % 100, c / 100;
        0 Unsigned false 1 Signed false 2 Pair false 3 Units false 4 Enums true 5 Small true 6 Unions false 7 Opts false 8 Bytes false 9 Bytes2 false
        10 Bytes3 false 11 Bytes4 false 12 Bounded false 13 Arrays false 14 Lists false 15 ListsOf false 16 UnionList false 17 Sets false
        18 SetsOf false 19 SetsOfStructs false 20 Maps false 21 MapsOf false 22 MapsOfMaps false 23 Texts false 24 Asciis true 25 Names true
        26 Names2 true 27 Boxed false 28 Deep false 29 Chars true 30 Small5 true 31 Names3 true
    )
}
