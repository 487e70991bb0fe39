#![allow(unexpected_cfgs, dead_code)]
mod sym;

macro_rules! harnesses {
    ($($m:ident :: $n:ident),* $(,)?) => {
        // only what a check asks for is compiled, by a cfg of the name of the harness
        $(
            #[cfg(any(feature = "replay", all_harnesses, $n))]
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $n() { $m::$n() }
        )*
        #[used]
        static TABLE: &[(&str, extern "C" fn())] = &[$(#[cfg(any(feature = "replay", all_harnesses, $n))] (stringify!($n), $n)),*];
    };
}
mod uni;
mod values;
mod meta;
mod access;
mod sysm;
mod libm;
mod idm;
mod trip;
mod ids;
mod rust;
mod collect;
harnesses! {
    values::h_typify, values::h_roundtrip, values::h_encode, values::h_decode, values::h_decode_units, values::h_long,
    meta::h_lookup, meta::h_class, meta::h_vpath, meta::h_tpath,
    access::h_access, access::h_native, access::h_import,
    sysm::h_extract, sysm::h_tree, sysm::h_tree_any,
    libm::h_compile, libm::h_semid_lib, libm::h_populate, libm::h_assemble,
    trip::h_trip, trip::h_trip_lib, trip::h_any_bytes, trip::h_any_window, trip::h_deep,
    ids::h_libid, ids::h_libid_forms, ids::h_sysid, ids::h_armor, ids::h_id_text, ids::h_id_window, ids::h_format, ids::h_fqn, ids::h_semver,
    rust::h_agree, collect::h_collect,
    idm::h_semid, idm::h_semid_forms,
}

#[cfg(not(feature = "replay"))]
fn main() { for (_, f) in unsafe { core::ptr::read_volatile(&TABLE) } { f() } }
#[cfg(feature = "replay")]
fn main() { sym::imp::main(TABLE) }
