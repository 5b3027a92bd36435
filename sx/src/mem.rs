//! Byte-precise memory with copy-on-write objects.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Stack, Heap, Global, Const }

pub const UNINIT: u8 = 0;
pub const CONC: u8 = 1;
pub const SYM: u8 = 2;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub st: Vec<u8>,
    pub sym: Vec<(E, u8)>, // empty, or one entry per byte
    pub kind: Kind,
    pub align: u64,
}
impl Obj {
    pub fn new(size: usize, kind: Kind, align: u64) -> Obj { Obj { data: vec![0; size], st: vec![UNINIT; size], sym: vec![], kind, align } }
    pub fn size(&self) -> usize { self.data.len() }
}

const CH: usize = 64;
#[derive(Clone)]
struct Chunk { slots: Vec<Option<Rc<Obj>>> }

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    next: u32,
    pub globals: Rc<HashMap<u32, Rc<Obj>>>,
    pub live_heap: u64,
}

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], next: 0, globals: Rc::new(HashMap::new()), live_heap: 0 } }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let (c, s) = (id as usize / CH, id as usize % CH);
        if c == self.chunks.len() { self.chunks.push(Rc::new(Chunk { slots: Vec::with_capacity(CH) })); }
        let ch = Rc::make_mut(&mut self.chunks[c]);
        debug_assert!(ch.slots.len() == s);
        ch.slots.push(Some(Rc::new(o)));
        id
    }
    pub fn allocated(&self) -> u32 { self.next }
    /// None: never existed; Some(None): freed
    pub fn get(&self, id: u32) -> Option<Option<&Rc<Obj>>> {
        if id >= self.next { return None; }
        Some(self.chunks[id as usize / CH].slots[id as usize % CH].as_ref())
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= self.next { return None; }
        let ch = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        ch.slots[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) {
        let ch = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        ch.slots[id as usize % CH] = None;
    }
}
