//! Copy-on-write memory: a persistent radix tree of reference-counted objects.
//! An address is (object number << 32) | offset.

use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct SymWrite {
    /// 64-bit offset expression (or constant when off_c is Some)
    pub off: Opd,
    pub n: u32,
    pub val: crate::exec::Val,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Opd {
    C(u64),
    E(E),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Global,
    Heap,
    Stack,
    Env,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per-byte symbolic value (0 = concrete); empty when fully concrete
    pub sym: Vec<E>,
    /// writes at symbolic offsets, oldest first
    pub wlog: Vec<SymWrite>,
    pub kind: Kind,
    pub live: bool,
    pub ro: bool,
}

impl Obj {
    pub fn new(size: usize, kind: Kind) -> Self {
        Obj { data: vec![0; size], sym: vec![], wlog: vec![], kind, live: true, ro: false }
    }
    #[inline]
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn has_sym(&self, o: usize, n: usize) -> bool {
        !self.sym.is_empty() && self.sym[o..o + n].iter().any(|x| *x != 0)
    }
}

const B: u32 = 5;
const F: usize = 1 << B;
const LEVELS: u32 = 4;

#[derive(Clone)]
enum Node {
    Empty,
    Inner(Rc<[Node; F]>),
    Leaf(Rc<[Option<Rc<Obj>>; F]>),
}

#[derive(Clone)]
pub struct Mem {
    root: Node,
    pub next: u32,
    free: Rc<Vec<u32>>,
}

fn empty_inner() -> [Node; F] {
    std::array::from_fn(|_| Node::Empty)
}
fn empty_leaf() -> [Option<Rc<Obj>>; F] {
    std::array::from_fn(|_| None)
}

impl Mem {
    pub fn new(first: u32) -> Self {
        Mem { root: Node::Empty, next: first, free: Rc::new(vec![]) }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let mut n = &self.root;
        let mut sh = B * (LEVELS - 1);
        loop {
            match n {
                Node::Empty => return None,
                Node::Inner(a) => {
                    n = &a[(id >> sh) as usize & (F - 1)];
                    sh -= B;
                }
                Node::Leaf(a) => return a[id as usize & (F - 1)].as_ref(),
            }
        }
    }
    #[inline]
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let mut n = &mut self.root;
        let mut lvl = LEVELS - 1;
        loop {
            if let Node::Empty = n {
                *n = if lvl == 0 { Node::Leaf(Rc::new(empty_leaf())) } else { Node::Inner(Rc::new(empty_inner())) };
            }
            match n {
                Node::Inner(a) => {
                    n = &mut Rc::make_mut(a)[(id >> (B * lvl)) as usize & (F - 1)];
                    lvl -= 1;
                }
                Node::Leaf(a) => return &mut Rc::make_mut(a)[id as usize & (F - 1)],
                Node::Empty => unreachable!(),
            }
        }
    }
    pub fn set(&mut self, id: u32, o: Obj) {
        *self.slot(id) = Some(Rc::new(o));
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        self.slot(id).as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, o: Obj) -> Result<u32, String> {
        let id = if !self.free.is_empty() && o.kind == Kind::Stack {
            Rc::make_mut(&mut self.free).pop().unwrap()
        } else {
            self.next += 1;
            self.next - 1
        };
        if id >= 1 << (B * LEVELS) {
            return Err("too many memory objects".into());
        }
        self.set(id, o);
        Ok(id)
    }
    /// Drop a stack object entirely and recycle its number.
    pub fn release(&mut self, id: u32) {
        *self.slot(id) = None;
        Rc::make_mut(&mut self.free).push(id);
    }
    pub fn kill(&mut self, id: u32) {
        // keep the tombstone without its contents
        let s = self.slot(id);
        if let Some(o) = s {
            let kind = o.kind;
            *s = Some(Rc::new(Obj { data: vec![], sym: vec![], wlog: vec![], kind, live: false, ro: false }));
        }
    }
}
