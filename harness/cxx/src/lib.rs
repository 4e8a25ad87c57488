//! Calls generated C++ code (head.h has the other side).
use drive::{Out, Rec};
use std::ffi::c_void;

#[repr(C)]
struct Ctx { me: *mut c_void, shift: extern "C" fn(*mut c_void, u32, u32), reduce: extern "C" fn(*mut c_void, u32), next: extern "C" fn(*mut c_void) -> u32 }
extern "C" { fn cxx_parse(k: u32, c: *mut Ctx) -> u32; }
struct Me<'a> { rec: &'a mut Rec, next: &'a mut dyn FnMut() -> (u8, u8) }
extern "C" fn shift(me: *mut c_void, t: u32, d: u32) { let me = unsafe { &mut *(me as *mut Me) }; me.rec.shift(t as u8, d as u8) }
extern "C" fn reduce(me: *mut c_void, r: u32) { let me = unsafe { &mut *(me as *mut Me) }; me.rec.reduce(r as usize) }
extern "C" fn next(me: *mut c_void) -> u32 { let me = unsafe { &mut *(me as *mut Me) }; let (t, d) = (me.next)(); t as u32 | (d as u32) << 8 }

pub fn parse(k: usize, rec: &mut Rec, n: &mut dyn FnMut() -> (u8, u8)) -> Out {
    let mut me = Me { rec, next: n };
    let mut c = Ctx { me: &mut me as *mut Me as *mut c_void, shift, reduce, next };
    match unsafe { cxx_parse(k as u32, &mut c) } { 0 => Out::Accept, 1 => Out::Refused, _ => Out::Other }
}
