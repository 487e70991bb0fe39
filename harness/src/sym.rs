//! The interface between harnesses and the symbolic executor. In the symbolic build these are
//! undefined externs which the executor intercepts; in the `replay` build they read a recorded
//! input vector and run natively, so that a counterexample is judged by the real code.
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        pub fn sym_var(width: u32) -> u64;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_config() -> u64;
        pub fn sym_allow_panic(on: bool);
        pub fn sym_alloc_cap(bytes: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_const_digests(on: bool);
        pub fn sym_reject() -> !;
        pub fn sym_note(p: *const u8, n: u64, v: u64);
    }
}

#[cfg(feature = "replay")]
pub mod imp {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    use std::sync::Mutex;
    pub static INPUTS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    pub static POS: AtomicU64 = AtomicU64::new(0);
    pub static CONFIG: AtomicU64 = AtomicU64::new(0);
    pub static ALLOW: AtomicBool = AtomicBool::new(false);
    pub static CAP: AtomicU64 = AtomicU64::new(u64::MAX);
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub static TRACE: Mutex<String> = Mutex::new(String::new());
    pub static FAILED: Mutex<Vec<u32>> = Mutex::new(Vec::new());
    fn next() -> Option<u64> {
        let i = POS.fetch_add(1, SeqCst) as usize;
        INPUTS.lock().unwrap().get(i).copied()
    }
    pub fn finish(what: &str) -> ! {
        let failed = FAILED.lock().map(|f| f.clone()).unwrap_or_default();
        println!("TRACE {}", TRACE.lock().map(|t| t.clone()).unwrap_or_default());
        match failed.first() {
            Some(id) => { println!("OUTCOME assert {id}"); std::process::exit(3) }
            None => { println!("OUTCOME {what}"); std::process::exit(if what.starts_with("ok") || what.starts_with("rejected") { 0 } else { 4 }) }
        }
    }
    pub unsafe fn sym_var(width: u32) -> u64 {
        let Some(v) = next() else { finish("rejected inputs-exhausted") };
        if width >= 64 { v } else { v & ((1u64 << width) - 1) }
    }
    pub unsafe fn sym_choice(n: u64) -> u64 {
        match next() { Some(v) if v < n => v, _ => finish("rejected inputs-exhausted") }
    }
    pub unsafe fn sym_assume(c: bool) { if !c { finish("rejected assume") } }
    pub unsafe fn sym_assert(c: bool, id: u32) {
        TRACE.lock().unwrap().push_str(&format!("a{id} "));
        if !c { FAILED.lock().unwrap().push(id); finish("assert") }
    }
    pub unsafe fn sym_cover(id: u32) { TRACE.lock().unwrap().push_str(&format!("c{id} ")); }
    pub unsafe fn sym_config() -> u64 { CONFIG.load(SeqCst) }
    pub unsafe fn sym_allow_panic(on: bool) { ALLOW.store(on, SeqCst) }
    pub unsafe fn sym_alloc_cap(bytes: u64) { CAP.store(bytes, SeqCst) }
    pub unsafe fn sym_concretize(v: u64) -> u64 { v }
    pub unsafe fn sym_const_digests(_: bool) {}
    pub unsafe fn sym_reject() -> ! { finish("rejected") }
    pub unsafe fn sym_note(p: *const u8, n: u64, v: u64) {
        let s = std::str::from_utf8(std::slice::from_raw_parts(p, n as usize)).unwrap();
        println!("NOTE {s} = {v}");
    }

    #[no_mangle]
    pub unsafe extern "C" fn sym_sha256_compress(state: *mut u32, blocks: *const u8, n: u64) {
        let st = &mut *(state as *mut [u32; 8]);
        sha2::soft_compress256(st, std::slice::from_raw_parts(blocks as *const [u8; 64], n as usize));
    }

    pub struct Counting;
    use std::alloc::{GlobalAlloc, Layout, System};
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() as u64 > CAP.load(SeqCst) {
                CAP.store(u64::MAX, SeqCst);
                finish("alloc-cap");
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    }
    #[global_allocator]
    static A: Counting = Counting;

    pub fn main(table: &[(&str, extern "C" fn())]) {
        let args: Vec<String> = std::env::args().collect();
        let f = table.iter().find(|(n, _)| *n == args[1]).expect("unknown harness").1;
        CONFIG.store(args[2].parse().unwrap(), SeqCst);
        let text = std::fs::read_to_string(&args[3]).unwrap();
        *INPUTS.lock().unwrap() = text.split_whitespace().map(|s| s.parse().unwrap()).collect();
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            eprintln!("{info}");
            if ALLOW.load(SeqCst) { finish("ok allowed-panic") }
            finish(&format!("panic {loc}"))
        }));
        f();
        finish("ok");
    }
}

pub fn var(width: u32) -> u64 { unsafe { imp::sym_var(width) } }
pub fn u8_() -> u8 { var(8) as u8 }
pub fn u16_() -> u16 { var(16) as u16 }
pub fn u32_() -> u32 { var(32) as u32 }
pub fn u64_() -> u64 { var(64) }
pub fn bool_() -> bool { var(1) == 1 }
/// Structural choice: one path per value in 0..n.
pub fn choice(n: usize) -> usize { unsafe { imp::sym_choice(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { imp::sym_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { imp::sym_assert(c, id) } }
pub fn cover(id: u32) { unsafe { imp::sym_cover(id) } }
pub fn config() -> usize { unsafe { imp::sym_config() as usize } }
pub fn allow_panic(on: bool) { unsafe { imp::sym_allow_panic(imp::sym_concretize(on as u64) != 0) } }
pub fn alloc_cap(bytes: u64) { unsafe { imp::sym_alloc_cap(bytes) } }
/// digests of symbolic data are arbitrary constants from here on, different for different data
pub fn const_digests() { unsafe { imp::sym_const_digests(true) } }
pub fn concretize(v: u64) -> u64 { unsafe { imp::sym_concretize(v) } }
pub fn reject() -> ! { unsafe { imp::sym_reject() } }
pub fn note(s: &str, v: u64) { unsafe { imp::sym_note(s.as_ptr(), s.len() as u64, v) } }
