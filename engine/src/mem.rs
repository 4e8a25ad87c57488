//! Object memory: address = (object id << 32) | offset.  Copy-on-write between states.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one byte expression (0 = concrete) per byte
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![], ro: false }
    }
    #[inline]
    pub fn any_sym(&self, off: usize, n: usize) -> bool {
        !self.sym.is_empty() && self.sym[off..off + n].iter().any(|x| *x != 0)
    }
    #[inline]
    pub fn byte(&self, i: usize) -> E {
        if !self.sym.is_empty() && self.sym[i] != 0 {
            self.sym[i]
        } else {
            cst(self.data[i] as u128, 8)
        }
    }
    #[inline]
    pub fn set_byte(&mut self, i: usize, e: E) {
        match as_const(e) {
            Some(c) => {
                self.data[i] = c as u8;
                if !self.sym.is_empty() {
                    self.sym[i] = 0;
                }
            }
            None => {
                if self.sym.is_empty() {
                    self.sym = vec![0; self.data.len()];
                }
                self.sym[i] = e;
            }
        }
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    pub hbase: u32,
    chunks: Vec<Rc<Chunk>>,
    next: u32,
    free: Vec<u32>,
    pub globals: Rc<FxMap<u32, Rc<Obj>>>,
    pub live: u32,
}

impl Mem {
    pub fn new(hbase: u32) -> Mem {
        Mem { hbase, chunks: vec![], next: 0, free: vec![], globals: Default::default(), live: 0 }
    }
    pub fn alloc(&mut self, n: u64) -> u64 {
        if n >= 1 << 30 {
            crate::exec::give_up(&format!("allocation of {} bytes", n));
        }
        let i = match self.free.pop() {
            Some(i) => i,
            None => {
                let i = self.next;
                self.next += 1;
                if (i as usize) / CH >= self.chunks.len() {
                    self.chunks.push(Rc::new(vec![None; CH]));
                }
                i
            }
        };
        let c = Rc::make_mut(&mut self.chunks[i as usize / CH]);
        c[i as usize % CH] = Some(Rc::new(Obj::new(n as usize)));
        self.live += 1;
        ((self.hbase + i) as u64) << 32
    }
    pub fn release(&mut self, addr: u64) -> bool {
        let id = (addr >> 32) as u32;
        if id < self.hbase || addr & 0xffff_ffff != 0 {
            return false;
        }
        let i = id - self.hbase;
        if i >= self.next {
            return false;
        }
        let c = Rc::make_mut(&mut self.chunks[i as usize / CH]);
        if c[i as usize % CH].take().is_none() {
            return false;
        }
        self.free.push(i);
        self.live -= 1;
        true
    }
    #[inline]
    pub fn heap(&self, id: u32) -> Option<&Rc<Obj>> {
        let i = id.wrapping_sub(self.hbase);
        if i >= self.next {
            return None;
        }
        self.chunks[i as usize / CH][i as usize % CH].as_ref()
    }
    #[inline]
    pub fn heap_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let i = id.wrapping_sub(self.hbase);
        if i >= self.next {
            return None;
        }
        let c = Rc::make_mut(&mut self.chunks[i as usize / CH]);
        c[i as usize % CH].as_mut().map(Rc::make_mut)
    }
}
