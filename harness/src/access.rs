//! C16, C17: accessors of structured values, conversions from native data and from documents.
use amplify::num::{i1024, u1024, u24, u40, u48, u56};
use indexmap::IndexMap;
use strict_encoding::stl::Bool;
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::*;

use crate::sym;
use crate::uni::{fnm, ibig, big, same, same_bytes, same_str, uint, vn, num_fits, num_bytes};

fn wrap(v: StrictVal) -> StrictVal {
    let mut v = v;
    for _ in 0..sym::choice(3) { v = StrictVal::Tuple(vec![v]) }
    v
}
fn inner(v: &StrictVal) -> &StrictVal {
    let mut v = v;
    while let StrictVal::Tuple(x) = v {
        if x.len() != 1 { break }
        v = &x[0]
    }
    v
}
/// some value of every kind
fn any() -> StrictVal {
    match sym::choice(20) {
        0 => StrictVal::Unit,
        1 => uint(sym::u64_()),
        2 => StrictVal::Number(StrictNum::Int(sym::u64_() as i64)),
        3 => big(),
        4 => ibig(),
        5 => StrictVal::String(text(sym::choice(3))),
        6 => StrictVal::Bytes(Blob((0..sym::choice(3)).map(|_| sym::u8_()).collect())),
        7 => StrictVal::Enum(EnumTag::Ord(sym::u8_())),
        8 => StrictVal::Enum(EnumTag::Name(vn(["true", "false", "zork"][sym::choice(3)]))),
        9 => StrictVal::Union(EnumTag::Ord(sym::u8_()), Box::new(uint(sym::u64_()))),
        10 => StrictVal::Union(EnumTag::Ord(sym::u8_()), Box::new(StrictVal::Unit)),
        11 => StrictVal::Union(EnumTag::Name(vn(["none", "some", "soma"][sym::choice(3)])), Box::new([StrictVal::Unit, uint(3)][sym::choice(2)].clone())),
        12 => StrictVal::List((0..sym::choice(3)).map(|_| StrictVal::Enum(EnumTag::Ord(sym::u8_()))).collect()),
        13 => StrictVal::List(vec![uint(sym::u64_()), StrictVal::Unit]),
        14 => StrictVal::Set(vec![uint(sym::u64_()), StrictVal::Unit, uint(2)]),
        15 => StrictVal::Tuple(vec![]),
        16 => StrictVal::Tuple(vec![uint(sym::u64_()), StrictVal::String("ab".into())]),
        17 => StrictVal::Struct([("aa", uint(sym::u64_())), ("bb", StrictVal::Unit)].into_iter().map(|(n, v)| (fnm(n), v)).collect::<IndexMap<_, _>>()),
        18 => {
            let (a, b) = (sym::u64_(), sym::u64_());
            sym::assume(a != b);
            StrictVal::Map(vec![(uint(a), uint(1)), (uint(b), StrictVal::Unit)])
        }
        _ => StrictVal::Map(vec![(StrictVal::String("k".into()), uint(sym::u64_())), (StrictVal::Tuple(vec![uint(1)]), uint(7))]),
    }
}
fn text(n: usize) -> String {
    let b = (0..n).map(|_| { let c = sym::u8_(); sym::assume(c < 128); c }).collect();
    unsafe { String::from_utf8_unchecked(b) }
}
fn eq(a: &StrictVal, b: &StrictVal) -> bool { core::ptr::eq(a, b) }

macro_rules! uint_as {
    ($v:expr, $i:expr, $($n:literal => $t:ty, $bits:expr);*) => {
        match sym::choice(8) {
            $($n => {
                let want = match $i {
                    StrictVal::Number(StrictNum::Uint(w)) => Some(*w),
                    StrictVal::Number(StrictNum::Int(w)) if *w >= 0 => Some(*w as u64),
                    StrictVal::Number(n) if num_fits(n, 8, false) => Some(u64::from_le_bytes(num_bytes(n)[..8].try_into().unwrap())),
                    _ => None,
                };
                let plain = matches!($i, StrictVal::Number(StrictNum::Uint(w)) if $bits == 64 || *w >> ($bits % 64) == 0);
                sym::allow_panic(!plain);
                let r: $t = $v.unwrap_uint();
                sym::allow_panic(false);
                sym::check(want.is_some_and(|w| r as i128 == w as i128), 2);
                sym::cover(1);
            })*
            _ => sym::reject()
        }
    };
}

/// Accessors return the datum, and do so whenever the value is of their kind. cfg = accessor
pub fn h_access() {
    let v = wrap(any());
    let i = inner(&v);
    sym::check(eq(v.skip_wrapper(), i), 3);
    // what is asked for must be answered exactly if it is there; anything else may be refused
    let ask = |there: bool| sym::allow_panic(!there);
    match sym::config() {
        0 => uint_as!(v, i, 0 => u8, 8; 1 => u16, 16; 2 => u32, 32; 3 => u64, 64; 4 => usize, 64; 5 => u128, 128; 6 => i64, 63; 7 => i8, 7),
        1 => {
            ask(matches!(i, StrictVal::Number(_)));
            let r = v.unwrap_num();
            sym::check(match i { StrictVal::Number(n) => core::ptr::eq(n, r), _ => false }, 4);
        }
        2 => {
            let want = match i {
                StrictVal::String(s) => Some(s.as_bytes().to_vec()),
                StrictVal::Bytes(b) => Some(b.0.clone()),
                StrictVal::List(x) if x.iter().all(|c| matches!(c, StrictVal::Enum(EnumTag::Ord(_)))) => Some(x.iter().map(|c| match c { StrictVal::Enum(EnumTag::Ord(t)) => *t, _ => 0 }).collect()),
                _ => None,
            };
            // plain text is always text
            ask(want.as_ref().is_some_and(|w| w.iter().all(|c| *c < 128)));
            let r = v.unwrap_string();
            sym::check(want.is_some_and(|w| same_bytes(&w, r.as_bytes())), 5);
        }
        3 => {
            ask(matches!(i, StrictVal::Bytes(_)));
            let r = v.unwrap_bytes();
            sym::check(match i { StrictVal::Bytes(b) => b.0.len() == r.len() && b.0.as_ptr() == r.as_ptr(), _ => false }, 6);
        }
        4 => {
            let no = sym::u16_();
            let want = match i { StrictVal::Tuple(x) => x.get(no as usize), _ => None };
            ask(want.is_some());
            let r = v.unwrap_tuple(no);
            sym::check(want.is_some_and(|w| eq(w, r)), 7);
        }
        5 => {
            let n = ["aa", "bb", "cc"][sym::choice(3)];
            let want = match i { StrictVal::Struct(x) => x.iter().find(|(k, _)| same_str(k.as_str(), n)).map(|x| x.1), _ => None };
            ask(want.is_some());
            let r = v.unwrap_struct(n);
            sym::check(want.is_some_and(|w| eq(w, r)), 8);
        }
        6 => {
            ask(matches!(i, StrictVal::Enum(_)));
            let r = v.unwrap_enum_tag();
            sym::check(match i { StrictVal::Enum(t) => core::ptr::eq(t, r), _ => false }, 9);
        }
        7 => {
            let want = match i {
                StrictVal::Enum(EnumTag::Ord(t)) => Some(*t),
                StrictVal::Enum(EnumTag::Name(n)) => if n.as_str() == "true" { Some(1) } else if n.as_str() == "false" { Some(0) } else { None },
                _ => None,
            };
            ask(want.is_some_and(|w| w < 2));
            let r: Bool = v.unwrap_enum();
            sym::check(want == Some(r as u8), 10);
        }
        8 => {
            let want = match i {
                StrictVal::Enum(EnumTag::Ord(t)) => Some(*t),
                StrictVal::Enum(EnumTag::Name(_)) => None,
                _ => None,
            };
            ask(want.is_some_and(|w| w <= 10));
            let r: Cls = v.unwrap_enum();
            sym::check(want == Some(r as u8), 10);
        }
        9 => {
            ask(matches!(i, StrictVal::Union(..)));
            let (t, c) = v.unwrap_union();
            sym::check(match i { StrictVal::Union(a, b) => core::ptr::eq(a, t) && eq(b, c), _ => false }, 11);
        }
        10 => {
            let no = sym::u32_() as usize;
            let want = match i { StrictVal::List(x) | StrictVal::Set(x) => x.get(no), _ => None };
            ask(want.is_some());
            let r = v.unwrap_pos(no);
            sym::check(want.is_some_and(|w| eq(w, r)), 12);
        }
        11 => {
            let k = match sym::choice(4) { 0 => uint(sym::u64_()), 1 => StrictVal::String(["k", "l"][sym::choice(2)].into()), 2 => StrictVal::Tuple(vec![uint(sym::u64_())]), _ => StrictVal::Unit };
            let want = match i { StrictVal::Map(x) => x.iter().find(|x| same(&x.0, &k)).map(|x| &x.1), _ => None };
            ask(want.is_some());
            let r = v.unwrap_key(&k);
            sym::check(want.is_some_and(|w| eq(w, r)), 13);
        }
        12 => {
            // an option has the number 0 and nothing inside, or the number 1
            let (none, some) = match i {
                StrictVal::Union(t, c) => {
                    let (n, s) = match t { EnumTag::Ord(t) => (*t == 0, *t == 1), EnumTag::Name(n) => (n.as_str() == "none", n.as_str() == "some") };
                    (n && matches!(**c, StrictVal::Unit), if s { Some(&**c) } else { None })
                }
                _ => (false, None),
            };
            ask(none || some.is_some());
            match v.unwrap_option() {
                None => sym::check(none, 14),
                Some(r) => sym::check(some.is_some_and(|w| eq(w, r)), 15),
            }
        }
        _ => {
            ask(matches!(i, StrictVal::Enum(EnumTag::Ord(_))));
            let StrictVal::Enum(t) = i else { sym::reject() };
            let r = t.unwrap_ord();
            sym::check(*t == EnumTag::Ord(r), 16);
        }
    }
    sym::cover(1);
}

fn is_uint(v: &StrictVal, n: u64) -> bool { matches!(v, StrictVal::Number(StrictNum::Uint(m)) if *m == n) }
fn is_int(v: &StrictVal, n: i64) -> bool { matches!(v, StrictVal::Number(StrictNum::Int(m)) if *m == n) }
fn is_str(v: &StrictVal, s: &str) -> bool { matches!(v, StrictVal::String(t) if same_str(t, s)) }
fn is_bytes(v: &StrictVal, s: &[u8]) -> bool { matches!(v, StrictVal::Bytes(t) if same_bytes(&t.0, s)) }
fn is_named(v: &StrictVal, s: &str) -> bool { matches!(v, StrictVal::Union(EnumTag::Name(t), _) if same_str(t.as_str(), s)) }

/// Values made from native data denote it
pub fn h_native() {
    let x = sym::u64_();
    let ok = match sym::choice(34) {
        0 => is_uint(&StrictVal::from(x as u8), x as u8 as u64) && is_uint(&StrictVal::num(x as u8), x as u8 as u64),
        1 => is_uint(&StrictVal::from(x as u16), x as u16 as u64) && is_uint(&StrictVal::num(x as u16), x as u16 as u64),
        2 => is_uint(&StrictVal::from(x as u32), x as u32 as u64) && is_uint(&StrictVal::num(x as u32), x as u32 as u64),
        3 => is_uint(&StrictVal::from(x), x) && is_uint(&StrictVal::num(x), x),
        4 => is_int(&StrictVal::from(x as i8), x as i8 as i64) && is_int(&StrictVal::num(x as i8), x as i8 as i64),
        5 => is_int(&StrictVal::from(x as i16), x as i16 as i64) && is_int(&StrictVal::num(x as i16), x as i16 as i64),
        6 => is_int(&StrictVal::from(x as i32), x as i32 as i64) && is_int(&StrictVal::num(x as i32), x as i32 as i64),
        7 => is_int(&StrictVal::from(x as i64), x as i64) && is_int(&StrictVal::num(x as i64), x as i64),
        8 => { let Ok(n) = u24::try_from(x as u32) else { sym::reject() }; is_uint(&StrictVal::from(n), x as u32 as u64) && is_uint(&StrictVal::num(n), x as u32 as u64) }
        9 => { let Ok(n) = u40::try_from(x) else { sym::reject() }; is_uint(&StrictVal::from(n), x) && is_uint(&StrictVal::num(n), x) }
        10 => { let Ok(n) = u48::try_from(x) else { sym::reject() }; is_uint(&StrictVal::from(n), x) && is_uint(&StrictVal::num(n), x) }
        11 => { let Ok(n) = u56::try_from(x) else { sym::reject() }; is_uint(&StrictVal::from(n), x) && is_uint(&StrictVal::num(n), x) }
        12 => { let n = u1024::from_inner([x; 16]); StrictVal::num(n) == StrictVal::Number(StrictNum::BigUint(n)) }
        13 => { let n = i1024::from_inner([x; 16]); StrictVal::num(n) == StrictVal::Number(StrictNum::BigInt(n)) }
        14 => { let s = text(2); is_str(&StrictVal::from(s.as_str()), &s) && is_str(&StrictVal::from(s.clone()), &s) }
        15 => { let s = text(2); is_str(&StrictVal::str(&s), &s) }
        16 => { let b = x.to_le_bytes(); is_bytes(&StrictVal::bytes(b), &b) && is_bytes(&StrictVal::bytes(&b[..3]), &b[..3]) }
        17 => { let b = x.to_le_bytes(); is_bytes(&StrictVal::from(Blob(b.to_vec())), &b) }
        18 => matches!(StrictVal::from(()), StrictVal::Unit),
        19 => matches!(&StrictVal::newtype(x), StrictVal::Tuple(t) if t.len() == 1 && is_uint(&t[0], x)),
        20 => matches!(&StrictVal::tuple([x, 7, x]), StrictVal::Tuple(t) if t.len() == 3 && is_uint(&t[0], x) && is_uint(&t[1], 7) && is_uint(&t[2], x)),
        21 => matches!(&StrictVal::list([x, 7, x]), StrictVal::List(t) if t.len() == 3 && is_uint(&t[0], x) && is_uint(&t[1], 7) && is_uint(&t[2], x)),
        22 => matches!(&StrictVal::set([x, 7, 8]), StrictVal::Set(t) if t.len() == 3 && is_uint(&t[0], x) && is_uint(&t[1], 7) && is_uint(&t[2], 8)),
        23 => matches!(&StrictVal::map([(x, "a"), (7, "b")]), StrictVal::Map(t) if t.len() == 2 && is_uint(&t[0].0, x) && is_str(&t[0].1, "a") && is_uint(&t[1].0, 7) && is_str(&t[1].1, "b")),
        24 => matches!(&StrictVal::struc([("bb", x), ("aa", 7)]), StrictVal::Struct(t) if t.len() == 2 && is_uint(&t[0], x) && is_uint(&t[1], 7) && t.get_index(0).unwrap().0.as_str() == "bb" && t.get_index(1).unwrap().0.as_str() == "aa"),
        25 => StrictVal::enumer(x as u8) == StrictVal::Enum(EnumTag::Ord(x as u8)) && matches!(&StrictVal::enumer("ab"), StrictVal::Enum(EnumTag::Name(n)) if n.as_str() == "ab"),
        26 => matches!(StrictVal::bool(x & 1 == 1), StrictVal::Enum(EnumTag::Ord(t)) if t as u64 == x & 1),
        27 => matches!(&StrictVal::union(x as u8, x), StrictVal::Union(EnumTag::Ord(t), v) if *t == x as u8 && is_uint(v, x)),
        28 => matches!(&StrictVal::union("ab", x), StrictVal::Union(_, v) if is_uint(v, x)) && is_named(&StrictVal::union("ab", x), "ab"),
        29 => { let v = StrictVal::none(); is_named(&v, "none") && v.unwrap_option().is_none() && StrictVal::from(None::<u8>).unwrap_option().is_none() }
        30 => { let v = StrictVal::some(x); is_named(&v, "some") && v.unwrap_option().is_some_and(|v| is_uint(v, x)) && StrictVal::from(Some(x)).unwrap_option().is_some_and(|v| is_uint(v, x)) }
        31 => { let v = uint(x); is_uint(&StrictVal::from(&v), x) }
        32 => is_uint(&ston!(x), x) && matches!(&ston!(aa x, bb 7u8), StrictVal::Struct(t) if t.len() == 2 && is_uint(&t[0], x) && is_uint(&t[1], 7)) && matches!(&ston!(x, "b"), StrictVal::Tuple(t) if t.len() == 2 && is_uint(&t[0], x) && is_str(&t[1], "b")),
        _ => is_uint(&svnum!(x), x) && is_str(&svstr!("ab"), "ab") && matches!(&svnewtype!(x), StrictVal::Tuple(t) if t.len() == 1 && is_uint(&t[0], x))
            && matches!(&svlist!([x, 1]), StrictVal::List(t) if t.len() == 2 && is_uint(&t[0], x)) && matches!(&svset!([x, 1]), StrictVal::Set(t) if t.len() == 2 && is_uint(&t[0], x))
            && is_named(&svsome!(x), "some") && is_named(&svnone!(), "none") && matches!(&svenum!(ab), StrictVal::Enum(EnumTag::Name(n)) if n.as_str() == "ab"),
    };
    sym::check(ok, 1);
    sym::cover(1);
}

// ---- documents ---------------------------------------------------------------------------------

enum D {
    Null,
    Bool(bool),
    Pos(u64),
    Neg(i64),
    Str(String),
    Arr(Vec<D>),
    Obj(Vec<(&'static str, D)>),
}
fn doc(depth: usize) -> D {
    match sym::choice(if depth == 0 { 5 } else { 7 }) {
        0 => D::Null,
        1 => D::Bool(sym::bool_()),
        2 => D::Pos(sym::u64_()),
        3 => { let n = sym::u64_() as i64; sym::assume(n < 0); D::Neg(n) }
        4 => D::Str(text(sym::choice(3))),
        5 => D::Arr((0..sym::choice(4)).map(|i| if i == 1 { doc(depth - 1) } else { D::Pos(sym::u64_()) }).collect()),
        _ => {
            // the keys come in any order
            let keys = [["b", "a", "ba"], ["a", "ba", "b"]][sym::choice(2)];
            (0..sym::choice(4)).map(|i| (keys[i], if i == 0 { doc(depth - 1) } else { D::Bool(i == 1) })).collect::<Vec<_>>().into_obj()
        }
    }
}
trait IntoObj { fn into_obj(self) -> D; }
impl IntoObj for Vec<(&'static str, D)> { fn into_obj(self) -> D { D::Obj(self) } }

fn json(d: &D) -> serde_json::Value {
    use serde_json::Value;
    match d {
        D::Null => Value::Null,
        D::Bool(b) => Value::Bool(*b),
        D::Pos(n) => Value::Number((*n).into()),
        D::Neg(n) => Value::Number((*n).into()),
        D::Str(s) => Value::String(s.clone()),
        D::Arr(x) => Value::Array(x.iter().map(json).collect()),
        D::Obj(x) => Value::Object(x.iter().map(|(k, v)| (k.to_string(), json(v))).collect()),
    }
}
fn yaml(d: &D) -> serde_yaml::Value {
    use serde_yaml::Value;
    match d {
        D::Null => Value::Null,
        D::Bool(b) => Value::Bool(*b),
        D::Pos(n) => Value::Number((*n).into()),
        D::Neg(n) => Value::Number((*n).into()),
        D::Str(s) => Value::String(s.clone()),
        D::Arr(x) => Value::Sequence(x.iter().map(yaml).collect()),
        D::Obj(x) => Value::Mapping(x.iter().map(|(k, v)| (Value::String(k.to_string()), yaml(v))).collect()),
    }
}
fn toml_(d: &D) -> toml::Value {
    use toml::Value;
    match d {
        D::Null => sym::reject(),
        D::Bool(b) => Value::Boolean(*b),
        D::Pos(n) => { let Ok(n) = i64::try_from(*n) else { sym::reject() }; Value::Integer(n) }
        D::Neg(n) => Value::Integer(*n),
        D::Str(s) => Value::String(s.clone()),
        D::Arr(x) => Value::Array(x.iter().map(toml_).collect()),
        D::Obj(x) => Value::Table(x.iter().map(|(k, v)| (k.to_string(), toml_(v))).collect()),
    }
}
fn denotes(v: &StrictVal, d: &D) -> bool {
    match (v, d) {
        (StrictVal::Unit, D::Null) => true,
        (StrictVal::Enum(EnumTag::Ord(t)), D::Bool(b)) => *t == *b as u8,
        (v, D::Pos(n)) => is_uint(v, *n),
        (v, D::Neg(n)) => is_int(v, *n),
        (v, D::Str(s)) => is_str(v, s),
        (StrictVal::List(x), D::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| denotes(x, y)),
        (StrictVal::Map(x), D::Obj(y)) => x.len() == y.len() && y.iter().all(|(k, d)| x.iter().any(|(l, v)| is_str(l, k) && denotes(v, d))),
        _ => false,
    }
}

/// Importing a document preserves it. cfg: 0 JSON, 1 YAML, 2 TOML, 3 YAML with keys which are not text
pub fn h_import() {
    let c = sym::config();
    if c == 3 {
        let k = match sym::choice(3) { 0 => D::Bool(sym::bool_()), 1 => D::Null, _ => D::Pos(5) };
        let key = yaml(&k);
        let mut m = serde_yaml::Mapping::new();
        m.insert(key, serde_yaml::Value::Bool(true));
        let StrictVal::Map(m) = StrictVal::from(serde_yaml::Value::Mapping(m)) else { sym::check(false, 2); return };
        sym::check(m.len() == 1 && denotes(&m[0].0, &k) && denotes(&m[0].1, &D::Bool(true)), 2);
        return sym::cover(1);
    }
    let d = doc(2);
    let v = match c {
        0 => StrictVal::from(json(&d)),
        1 => StrictVal::from(yaml(&d)),
        _ => StrictVal::from(toml_(&d)),
    };
    sym::check(denotes(&v, &d), 1);
    sym::cover(1);
}
