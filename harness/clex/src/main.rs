//! Executes generated C++ lexers (written by harness/gen from /repo's current generators) on arbitrary texts.
use corp::inside;
use pat::m;
use std::ffi::c_void;
include!(concat!(env!("LAPEX_GEN_DIR"), "/all.rs"));

sym::entries! { h_lex(which, strlen), h_long(texts, max, two), h_bytes(which, len) }

const END: u32 = 1000255;
const ERR: u32 = 1000254;
#[repr(C)]
struct LexCtx { me: *mut c_void, text: *const u8, len: usize, out: extern "C" fn(*mut c_void, u32, usize, usize) -> bool }
extern "C" { fn cxx_lex(k: u32, c: *mut LexCtx) -> u32; }
struct Me<'a> { out: &'a mut dyn FnMut(u32, usize, usize) -> bool }
extern "C" fn out(me: *mut c_void, t: u32, s: usize, e: usize) -> bool { let me = unsafe { &mut *(me as *mut Me) }; (me.out)(t, s, e) }
/// Calls `f` with every token (its number, END or ERR), its start and its end, until it returns false.
fn lex(k: usize, text: &[u8], f: &mut dyn FnMut(u32, usize, usize) -> bool) {
    let mut me = Me { out: f };
    let mut c = LexCtx { me: &mut me as *mut Me as *mut c_void, text: text.as_ptr(), len: text.len(), out };
    if unsafe { cxx_lex(k as u32, &mut c) } != 0 { sym::fail(20) }
}
fn pick(which: u64) -> usize { CASES[if which == 0 { sym::choose(CASES.len() as u32) as usize } else { which as usize - 1 }] }

/// `which` 0: every case; k: only case k-1. Texts of up to `strlen` arbitrary characters other than U+0000.
fn h_lex(which: u64, strlen: u64) {
    let id = pick(which);
    if which == 0 && id == corp::LARGE_LEXER { return }
    let rules = corp::lexer(id);
    let n = sym::choose(strlen as u32 + 1) as usize;
    judge(id, &rules, (0..n).map(|_| sym::scalar(1, 0x10ffff)).collect())
}
/// Long texts with arbitrary characters in one place.
fn h_long(texts: u64, max: u64, two: u64) {
    let id = pick(0);
    if id == corp::LARGE_LEXER { return }
    let rules = corp::lexer(id);
    let cs = corp::edited(&rules, texts, max, two);
    judge(id, &rules, cs)
}
fn judge(id: usize, rules: &[corp::Tok], cs: Vec<u32>) {
    let n = cs.len();
    let mut text = String::new();
    for c in &cs { text.push(sym::chr(*c)) }
    let precs: Vec<usize> = rules.iter().map(|(_, p, q)| q.map(|q| q as usize).unwrap_or(pat::prec(p))).collect();
    let (mut at, mut ends, mut steps) = (0, 0, 0);
    lex(id, text.as_bytes(), &mut |t, s, e| {
        let (t, s, e) = (sym::concretize(t as u64) as u32, sym::concretize(s as u64) as usize, sym::concretize(e as u64) as usize);
        steps += 1;
        if steps > n + 3 { sym::fail(1); return false }
        // tokens follow each other without gaps; places count characters
        if s != at { sym::fail(4); return false }
        sym::observe((t as usize * 256 + s * 16 + e) as u64);
        if at == n {
            sym::reach(1);
            if t != END { sym::fail(5) }
            ends += 1;
            return ends < 2;
        }
        let start = 1u64 << at;
        let live = rules.iter().fold(0, |r, (_, p, _)| r | inside(p, start, &cs));
        if t == ERR {
            sym::reach(3);
            // no rule matches up to the place where none can go on
            let mut bad = 1u64;
            for q in at..=n {
                let last = (live >> q) & 1 & if q < n { !(live >> (q + 1)) & 1 } else { 1 };
                for (_, p, _) in rules { if q > at { bad &= !(last & (m(p, start, &cs) >> q)) & 1 } }
            }
            sym::check(bad == 1, 12);
            return false;
        }
        if t as usize >= rules.len() { sym::fail(14); return false }
        sym::reach(2);
        if e <= at || e > n { sym::fail(9); return false }
        sym::check((live >> e) & 1 == 1, 7);
        if e < n { sym::check((live >> (e + 1)) & 1 == 0, 8) }
        let t = t as usize;
        let hits: Vec<u64> = rules.iter().map(|(_, p, _)| (m(p, start, &cs) >> e) & 1).collect();
        sym::check(hits[t] == 1, 10);
        for i in 0..rules.len() { if i != t && precs[i] >= precs[t] { sym::check(hits[i] == 0, 11) } }
        at = e;
        true
    });
}

/// The length of the well-formed UTF-8 sequence that `b` begins with, 0 if there is none (Unicode, table 3-7).
fn well_formed(b: &[u8]) -> usize {
    let t = |k: usize| b.len() > k && b[k] >= 0x80 && b[k] <= 0xbf;
    match b[0] {
        0..=0x7f => 1,
        0xc2..=0xdf => if t(1) { 2 } else { 0 },
        0xe0 => if t(1) && b[1] >= 0xa0 && t(2) { 3 } else { 0 },
        0xed => if t(1) && b[1] <= 0x9f && t(2) { 3 } else { 0 },
        0xe1..=0xef => if t(1) && t(2) { 3 } else { 0 },
        0xf0 => if t(1) && b[1] >= 0x90 && t(2) && t(3) { 4 } else { 0 },
        0xf4 => if t(1) && b[1] <= 0x8f && t(2) && t(3) { 4 } else { 0 },
        0xf1..=0xf3 => if t(1) && t(2) && t(3) { 4 } else { 0 },
        _ => 0,
    }
}
/// Arbitrary bytes: well-formed texts are read as they are, others are refused, and no token reaches into what is malformed.
fn h_bytes(which: u64, len: u64) {
    let id = pick(which);
    if which == 0 && id == corp::LARGE_LEXER { return }
    let rules = corp::lexer(id);
    let n = sym::choose(len as u32 + 1) as usize;
    let text: Vec<u8> = (0..n).map(|_| sym::u8(1, 255)).collect();
    // characters before the first malformed place
    let (mut i, mut good) = (0, 0);
    while i < n {
        let k = well_formed(&text[i..]);
        if k == 0 { break }
        good += 1;
        i += k;
    }
    let ok = i == n;
    let (mut at, mut steps) = (0, 0);
    let all = rules[0].0 == "ANY";
    lex(id, &text, &mut |t, s, e| {
        let (t, s, e) = (sym::concretize(t as u64) as u32, sym::concretize(s as u64) as usize, sym::concretize(e as u64) as usize);
        steps += 1;
        if steps > n + 3 { sym::fail(1); return false }
        sym::observe((t as usize * 256 + s * 16 + e) as u64);
        if s != at { sym::fail(4); return false }
        if t == END { sym::reach(1); if !ok || at != good { sym::fail(30) } return false }
        // every character is a token of the rule set with ANY
        if t == ERR { sym::reach(3); if ok && all { sym::fail(31) } return false }
        if e > good || e <= at { sym::fail(32); return false }
        sym::reach(2);
        at = e;
        true
    });
}
