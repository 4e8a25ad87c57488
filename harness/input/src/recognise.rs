//! An independent reader of the definition language that only says whether a text belongs to it.
//! `None`: it depends on a regular expression, which is another matter.

#[derive(Clone, Copy, PartialEq)]
enum K { Token, Entry, Prod, Ident, Num, Str, Re, Sign(u8), End, Bad }

struct Reader<'a> { c: &'a [u32], i: usize, at: K, over: bool, regex: bool, entries: usize }
fn letter(c: u32) -> bool { (c >= 97 && c <= 122) || (c >= 65 && c <= 90) }
fn digit(c: u32) -> bool { c >= 48 && c <= 57 }

impl Reader<'_> {
    fn peek(&self) -> u32 { if self.i < self.c.len() { self.c[self.i] } else { 0 } }
    fn next(&mut self) {
        while self.peek() == 32 || self.peek() == 9 || self.peek() == 10 { self.i += 1 }
        let c = self.peek();
        let s = self.i;
        self.at = if s >= self.c.len() { K::End }
        else if letter(c) {
            while letter(self.peek()) || digit(self.peek()) || self.peek() == 95 { self.i += 1 }
            let w = &self.c[s..self.i];
            let is = |k: &str| { if k.len() != w.len() { return false } for (a, b) in k.bytes().zip(w) { if a as u32 != *b { return false } } true };
            if is("token") { K::Token } else if is("entry") { K::Entry } else if is("prod") { K::Prod } else { K::Ident }
        } else if digit(c) {
            self.i += 1;
            if c != 48 { while digit(self.peek()) { self.i += 1 } }
            if self.i - s > 5 { self.over = true } else {
                let mut v = 0;
                for d in &self.c[s..self.i] { v = v * 10 + (*d - 48) }
                if v > 65535 { self.over = true }
            }
            K::Num
        } else if c == 34 || c == 47 {
            self.i += 1;
            loop {
                let d = self.peek();
                if self.i >= self.c.len() || d == 10 { self.at = K::Bad; return }
                self.i += 1;
                if d == c { break }
                if d == 92 {
                    if self.i >= self.c.len() { self.at = K::Bad; return }
                    self.i += 1;
                }
            }
            if c == 47 { self.regex = true; K::Re } else { K::Str }
        } else {
            let mut k = K::Bad;
            for x in "=;()[]?!*+|".bytes() { if c == x as u32 { k = K::Sign(x); break } }
            self.i += 1;
            k
        };
    }
    fn eat(&mut self, k: K) -> bool { if self.at == k { self.next(); true } else { false } }
    fn pattern(&mut self) -> bool {
        if self.eat(K::Sign(b'!')) { return true }
        loop {
            let mut n = 0;
            loop {
                if self.at == K::Ident { self.next() }
                else if self.at == K::Sign(b'(') { self.next(); if !self.pattern() || !self.eat(K::Sign(b')')) { return false } }
                else { break }
                n += 1;
                let _ = self.eat(K::Sign(b'?')) || self.eat(K::Sign(b'*')) || self.eat(K::Sign(b'+'));
            }
            if n == 0 { return false }
            if !self.eat(K::Sign(b'|')) { return true }
        }
    }
    fn rule(&mut self) -> bool {
        match self.at {
            K::Entry => { self.next(); self.entries += 1; self.eat(K::Ident) && self.eat(K::Sign(b';')) }
            K::Prod => {
                self.next();
                if !self.eat(K::Ident) { return false }
                if self.eat(K::Sign(b'[')) && !(self.eat(K::Ident) && self.eat(K::Sign(b']'))) { return false }
                self.eat(K::Sign(b'=')) && self.pattern() && self.eat(K::Sign(b';'))
            }
            K::Token => {
                self.next();
                if !self.eat(K::Ident) { return false }
                if self.eat(K::Sign(b'[')) && !(self.eat(K::Num) && self.eat(K::Sign(b']'))) { return false }
                self.eat(K::Sign(b'=')) && (self.eat(K::Str) || self.eat(K::Re)) && self.eat(K::Sign(b';'))
            }
            _ => false,
        }
    }
}
pub fn definition(c: &[u32]) -> Option<bool> {
    let mut r = Reader { c, i: 0, at: K::Bad, over: false, regex: false, entries: 0 };
    r.next();
    let mut n = 0;
    while r.at != K::End {
        if !r.rule() { return Some(false) }
        n += 1;
    }
    if n == 0 || r.entries != 1 || r.over { return Some(false) }
    if r.regex { None } else { Some(true) }
}
