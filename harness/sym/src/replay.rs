use std::cell::{Cell, RefCell};
thread_local! {
    static IN: RefCell<(Vec<u64>, usize)> = const { RefCell::new((vec![], 0)) };
    static ALLOW: Cell<bool> = const { Cell::new(false) };
}
fn out(s: &str, code: i32) -> ! {
    println!("REPLAY {}", s);
    std::process::exit(code)
}
pub fn begin() {
    let s = std::env::var("SYM_INPUTS").unwrap_or_default();
    let v: Vec<u64> = s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    IN.with(|i| *i.borrow_mut() = (v, 0));
    std::panic::set_hook(Box::new(|i| {
        if ALLOW.with(|a| a.get()) { out("panic-allowed", 0) }
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        out(&format!("panic at {}: {}", loc, msg.replace('\n', " ")), 11)
    }));
}
pub fn end() { out("ok", 0) }
fn next(lo: u64, hi: u64) -> u64 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        let v = i.0.get(k).copied().unwrap_or(lo);
        if v < lo || v > hi { out(&format!("input {} out of range", k), 21) }
        v
    })
}
#[no_mangle]
pub extern "C" fn __sym_u8(lo: u8, hi: u8) -> u8 { next(lo as u64, hi as u64) as u8 }
#[no_mangle]
pub extern "C" fn __sym_u16(lo: u16, hi: u16) -> u16 { next(lo as u64, hi as u64) as u16 }
#[no_mangle]
pub extern "C" fn __sym_u32(lo: u32, hi: u32) -> u32 { next(lo as u64, hi as u64) as u32 }
#[no_mangle]
pub extern "C" fn __sym_u64(lo: u64, hi: u64) -> u64 { next(lo, hi) }
#[no_mangle]
pub extern "C" fn __sym_assume(c: bool) { if !c { out("assumption-failed", 22) } }
#[no_mangle]
pub extern "C" fn __sym_check(c: bool, code: u32) { if !c { out(&format!("fail:{}", code), 10) } }
#[no_mangle]
pub extern "C" fn __sym_fail(code: u32) { out(&format!("fail:{}", code), 10) }
#[no_mangle]
pub extern "C" fn __sym_observe(v: u64) { println!("OBS {}", v) }
#[no_mangle]
pub extern "C" fn __sym_panic_mode(m: u32) { ALLOW.with(|a| a.set(m != 0)) }
#[no_mangle]
pub extern "C" fn __sym_reach(_: u32) {}
#[no_mangle]
pub extern "C" fn __sym_concretize(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn __sym_is_replay() -> bool { true }
#[no_mangle]
pub extern "C" fn __sym_fork_select(_: u32) {}
#[no_mangle]
pub extern "C" fn __sym_note(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    println!("NOTE {}", String::from_utf8_lossy(s));
}
