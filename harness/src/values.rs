//! C01..C05: typification and the reflective codec.
use amplify::confinement::{Confined, U32 as MAX32};
use strict_encoding::{Sizing, StreamReader};
use strict_types::typesys::TypeSystem;
use strict_types::value::decode::Error as DErr;
use strict_types::*;

use crate::sym;
use crate::uni::*;

const CAP: usize = 1 << 20;

fn write(sys: &TypeSystem, t: &strict_types::typify::TypedVal) -> Option<Vec<u8>> {
    sys.strict_serialize_value::<CAP>(t).ok().map(Confined::release)
}

/// cfg = type + 100 * odd + 1000 * k; longest collection [2, 1, 3][k]
fn setup() -> (U, StrictVal) {
    let c = sym::config();
    let u = universe(c % 100, sz);
    let v = { let mut g = G { u: &u, odd: (c / 100 % 10) as u32, len: [2, 1, 3][c / 1000] }; g.val(u.root) };
    (u, v)
}

/// C03, C04 (and the typification half of C05)
pub fn h_typify() {
    let (u, v) = setup();
    let sys = u.sys();
    let want = u.conf(u.root, &v);
    match (sys.typify(v, u.root_id()), want) {
        (_, V::Unk) => sym::cover(3),
        (Ok(t), V::Yes { val, .. }) => {
            sym::cover(1);
            sym::check(same(t.as_val(), &val), 2);
        }
        (Ok(_), V::No) => sym::check(false, 1),
        (Err(_), V::Yes { must, .. }) => sym::check(!must, 3),
        (Err(_), V::No) => sym::cover(2),
    }
}

/// C01: accepted => written => read back equal; bytes are the reference encoding
pub fn h_roundtrip() {
    let (u, v) = setup();
    let sys = u.sys();
    let Ok(t) = sys.typify(v, u.root_id()) else { sym::reject() };
    sym::cover(1);
    let b = write(&sys, &t);
    sym::check(b.is_some(), 1);
    let b = b.unwrap();
    match sys.strict_deserialize_type(u.root_id(), &b) {
        Ok(r) => {
            sym::cover(2);
            sym::check(same(r.as_val(), t.as_val()), 2);
        }
        Err(DErr::NotImplemented(_)) => sym::check(u.unreadable(u.root), 3),
        Err(_) => sym::check(false, 4),
    }
}

/// C04: plain values are written as the reference encoding
pub fn h_encode() {
    let (u, v) = setup();
    let sys = u.sys();
    let V::Yes { val, .. } = u.conf(u.root, &v) else { sym::reject() };
    let Ok(t) = sys.typify(v, u.root_id()) else { sym::reject() };
    let mut e = vec![];
    u.enc(u.root, &val, &mut e);
    let b = write(&sys, &t);
    sym::check(b.is_some(), 1);
    sym::cover(1);
    sym::check(same_bytes(&b.unwrap(), &e), 2);
}

/// C02 and the reading half of C05. cfg = type + 100 * number of bytes
pub fn h_decode() {
    let c = sym::config();
    let u = universe(c % 100, sz);
    let sys = u.sys();
    let data: Vec<u8> = (0..c / 100).map(|_| sym::u8_()).collect();
    if c % 100 == 51 {
        // lists of zero-sized items: bounded here, see h_decode_units
        let Sh::List(_, s) = &u.sh[u.root] else { sym::reject() };
        sym::assume(s.max <= 70_000);
        for b in data.iter().skip(1) { sym::assume(*b == 0) }
        if let Some(b) = data.first() { sym::assume(*b <= 3) }
    }
    sym::alloc_cap(1 << 16);
    let mut cur = StreamReader::cursor::<MAX32>(&data[..]);
    let r = sys.strict_read_type(u.root_id(), &mut cur);
    sym::alloc_cap(u64::MAX);
    let used = cur.unconfine().position() as usize;
    let whole = sys.strict_deserialize_type(u.root_id(), &data);
    let Ok(t) = r else {
        sym::check(whole.is_err(), 7);
        sym::cover(2);
        return;
    };
    sym::cover(1);
    sym::check(whole.is_ok() == (used == data.len()), 1);
    match sys.typify(t.as_val().clone(), u.root_id()) {
        Ok(a) => sym::check(same(a.as_val(), t.as_val()), 2),
        Err(_) => sym::check(false, 3),
    }
    let b = write(&sys, &t);
    sym::check(b.is_some(), 4);
    sym::check(same_bytes(&b.unwrap(), &data[..used]), 5);
}

/// C05: a length prefix of a list of zero-sized items must not decide how much is allocated
pub fn h_decode_units() {
    let mut u = universe(51, sz);
    if let Sh::List(_, s) = &mut u.sh[u.root] { *s = Sizing::new(0, u32::MAX as u64) }
    let sys = u.sys();
    let data = [0, 0, 0, sym::u8_()];
    sym::assume(data[3] > 0);
    sym::alloc_cap(1 << 16);
    let _ = sys.strict_deserialize_type(u.root_id(), &data);
    sym::cover(1);
}

/// C01, C03: long collections; lengths around the boundaries of length prefixes, symbolic bounds.
/// cfg = kind + 10 * length index
pub fn h_long() {
    const LENS: [usize; 6] = [254, 255, 256, 257, 65535, 65536];
    let c = sym::config();
    let n = LENS[c / 10];
    let u = universe([45, 48, 49, 34, 50, 54, 56][c % 10], sz);
    let first = sym::u8_();
    let s = || {
        let mut b = vec![b'a'; n];
        b[n - 1] = b"bx"[sym::choice(2)];
        String::from_utf8(b).unwrap()
    };
    let v = match c % 10 {
        0 => { let mut b = vec![7u8; n]; b[n - 1] = first; StrictVal::bytes(b) }
        1 | 2 | 3 => StrictVal::String(s()),
        4 => StrictVal::List((0..n).map(|_| StrictVal::enumer(1u8)).collect()),
        5 => StrictVal::Set((0..n).map(|i| uint(i as u64)).collect()),
        _ => StrictVal::Map((0..n).map(|i| (uint(i as u64), uint(first as u64))).collect()),
    };
    let sys = u.sys();
    let want = u.conf(u.root, &v);
    match (sys.typify(v, u.root_id()), want) {
        (Ok(t), V::Yes { val, .. }) => {
            sym::cover(1);
            sym::check(same(t.as_val(), &val), 2);
            let mut e = vec![];
            u.enc(u.root, &val, &mut e);
            let b = write(&sys, &t);
            sym::check(b.is_some(), 4);
            let b = b.unwrap();
            sym::check(same_bytes(&b, &e), 5);
            match sys.strict_deserialize_type(u.root_id(), &b) {
                Ok(r) => sym::check(same(r.as_val(), t.as_val()), 6),
                Err(_) => sym::check(false, 7),
            }
        }
        (Ok(_), V::No) => sym::check(false, 1),
        (Err(_), V::Yes { must, .. }) => sym::check(!must, 3),
        _ => sym::cover(2),
    }
}
