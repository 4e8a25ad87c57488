//! Harness-side interface of the symbolic executor. Without the `replay` feature the `__sym_*`
//! functions stay undefined and the executor supplies them; with it they read recorded inputs, so the
//! very same harness runs natively against the real code.
extern "C" {
    fn __sym_u8(lo: u8, hi: u8) -> u8;
    fn __sym_u16(lo: u16, hi: u16) -> u16;
    fn __sym_u32(lo: u32, hi: u32) -> u32;
    fn __sym_u64(lo: u64, hi: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, code: u32);
    fn __sym_fail(code: u32);
    fn __sym_observe(v: u64);
    fn __sym_panic_mode(m: u32);
    fn __sym_reach(code: u32);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_is_replay() -> bool;
    fn __sym_fork_select(on: u32);
    fn __sym_note(p: *const u8, n: usize);
}
#[inline(always)]
pub fn u8(lo: u8, hi: u8) -> u8 { unsafe { __sym_u8(lo, hi) } }
#[inline(always)]
pub fn u16(lo: u16, hi: u16) -> u16 { unsafe { __sym_u16(lo, hi) } }
#[inline(always)]
pub fn u32(lo: u32, hi: u32) -> u32 { unsafe { __sym_u32(lo, hi) } }
#[inline(always)]
pub fn u64(lo: u64, hi: u64) -> u64 { unsafe { __sym_u64(lo, hi) } }
/// A symbolic choice among 0..n that the path is forked on, so that it is concrete afterwards.
#[inline(never)]
pub fn choose(n: u32) -> u32 {
    if n <= 1 { return 0; }
    let x = u32(0, n - 1);
    concretize(x as u64) as u32
}
#[inline(always)]
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
#[inline(always)]
pub fn check(c: bool, code: u32) { unsafe { __sym_check(c, code) } }
#[inline(always)]
pub fn fail(code: u32) { unsafe { __sym_fail(code) } }
#[inline(always)]
pub fn observe(v: u64) { unsafe { __sym_observe(v) } }
#[inline(always)]
pub fn panic_allowed(a: bool) { unsafe { __sym_panic_mode(a as u32) } }
#[inline(always)]
pub fn reach(code: u32) { unsafe { __sym_reach(code) } }
#[inline(always)]
pub fn concretize(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
#[inline(always)]
pub fn is_replay() -> bool { unsafe { __sym_is_replay() } }
/// While on, the executor forks on conditional moves as it does on branches.
#[inline(always)]
pub fn fork_select(on: bool) { unsafe { __sym_fork_select(on as u32) } }
#[inline(never)]
pub fn note(s: &str) { unsafe { __sym_note(s.as_ptr(), s.len()) } }
/// Any Unicode scalar value in the range, as a code point.
#[inline(always)]
pub fn scalar(lo: u32, hi: u32) -> u32 {
    let c = u32(lo, hi);
    assume((c < 0xd800) | (c > 0xdfff));
    c
}
#[inline(always)]
pub fn chr(c: u32) -> char { unsafe { char::from_u32_unchecked(c) } }

#[macro_export]
macro_rules! entries {
    ($($f:ident ( $($a:ident),* )),* $(,)?) => {
        mod __entries {
            $( #[no_mangle] pub extern "C" fn $f($($a: u64),*) { super::$f($($a),*) } )*
        }
        fn main() {
            let v: Vec<String> = std::env::args().collect();
            #[allow(unused_mut, unused_variables)]
            let mut a = v.iter().skip(2).map(|x| x.parse::<u64>().unwrap());
            $crate::begin();
            match v.get(1).map(|x| x.as_str()).unwrap_or("") {
                $( stringify!($f) => { $( let $a = a.next().unwrap_or(0); )* __entries::$f($($a),*); } )*
                _ => { println!("REPLAY no-entry"); std::process::exit(20); }
            }
            $crate::end();
        }
    };
}
#[cfg(not(feature = "replay"))]
pub fn begin() {}
#[cfg(not(feature = "replay"))]
pub fn end() {}
#[cfg(feature = "replay")]
mod replay;
#[cfg(feature = "replay")]
pub use replay::{begin, end};
