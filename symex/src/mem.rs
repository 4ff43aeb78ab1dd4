//! Byte-addressed memory: concrete addresses, objects separated by guard gaps, bytes concrete or symbolic.
use crate::ir::{Module, FUNC_BASE, GLOBAL_BASE};
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x10_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;
pub const GAP: u64 = 128;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub data: Vec<u8>,
    /// expression id (width 8) per byte, 0 = concrete; empty = all concrete
    pub sym: Vec<u32>,
    pub kind: Kind,
    pub ro: bool,
    pub freed: bool,
}

/// Objects by ascending address. Shared between the states of different paths until written to.
#[derive(Clone, Default)]
struct Region {
    base: Vec<u64>,
    objs: Vec<Rc<Obj>>,
}
impl Region {
    fn push(&mut self, o: Obj) {
        self.base.push(o.base);
        self.objs.push(Rc::new(o));
    }
}

#[derive(Clone)]
pub struct Mem {
    globals: Rc<Region>,
    heap: Region,
    stack: Region,
    heap_next: u64,
    stack_next: u64,
    pub heap_live: u64,
    cache: [(u8, u32); 2],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ref {
    pub region: u8,
    pub idx: u32,
}

impl Mem {
    pub fn new(m: &mut Module) -> Mem {
        let mut globals = Region::default();
        for g in m.globals.iter_mut() {
            globals.push(Obj { base: g.addr, size: g.size, align: g.align, data: std::mem::take(&mut g.bytes), sym: vec![], kind: Kind::Global, ro: g.constant, freed: false });
        }
        Mem { globals: Rc::new(globals), heap: Region::default(), stack: Region::default(), heap_next: HEAP_BASE, stack_next: STACK_BASE, heap_live: 0, cache: [(0, 0); 2] }
    }
    fn region(&self, r: u8) -> &Region {
        match r {
            0 => &self.globals,
            1 => &self.heap,
            _ => &self.stack,
        }
    }
    pub fn obj(&self, r: Ref) -> &Obj {
        &self.region(r.region).objs[r.idx as usize]
    }
    pub fn obj_mut(&mut self, r: Ref) -> &mut Obj {
        let v = match r.region {
            0 => Rc::make_mut(&mut self.globals),
            1 => &mut self.heap,
            _ => &mut self.stack,
        };
        Rc::make_mut(&mut v.objs[r.idx as usize])
    }
    /// Object whose [base, base+size] contains addr (one-past-the-end included).
    pub fn find(&mut self, addr: u64) -> Option<Ref> {
        for &(r, i) in &self.cache {
            if let Some(o) = self.region(r).objs.get(i as usize) {
                if addr >= o.base && addr < o.base + o.size {
                    return Some(Ref { region: r, idx: i });
                }
            }
        }
        let r = if addr >= STACK_BASE {
            2
        } else if addr >= HEAP_BASE {
            1
        } else if addr >= GLOBAL_BASE {
            0
        } else {
            return None;
        };
        let v = self.region(r);
        let mut p = v.base.partition_point(|&b| b <= addr);
        if p == 0 {
            return None;
        }
        p -= 1;
        let o = &v.objs[p];
        if addr <= o.base + o.size {
            self.cache[1] = self.cache[0];
            self.cache[0] = (r, p as u32);
            return Some(Ref { region: r, idx: p as u32 });
        }
        None
    }
    pub fn alloc_heap(&mut self, size: u64, align: u64) -> u64 {
        let align = align.max(1);
        let mut a = (self.heap_next + align - 1) / align * align;
        // exactly `align`-aligned, not more: misaligned use of over-aligned memory shows up
        if a % (2 * align) == 0 {
            a += align;
        }
        self.heap.push(Obj { base: a, size, align, data: vec![0; size as usize], sym: vec![], kind: Kind::Heap, ro: false, freed: false });
        self.heap_next = a + size + GAP;
        self.heap_live += size;
        a
    }
    pub fn alloc_stack(&mut self, size: u64, align: u64) -> u64 {
        let align = align.max(1);
        let mut a = (self.stack_next + align - 1) / align * align;
        if a % (2 * align) == 0 {
            a += align;
        }
        self.stack.push(Obj { base: a, size, align, data: vec![0; size as usize], sym: vec![], kind: Kind::Stack, ro: false, freed: false });
        self.stack_next = a + size + 64;
        a
    }
    pub fn stack_mark(&self) -> (usize, u64) {
        (self.stack.objs.len(), self.stack_next)
    }
    pub fn stack_release(&mut self, m: (usize, u64)) {
        self.stack.objs.truncate(m.0);
        self.stack.base.truncate(m.0);
        self.stack_next = m.1;
    }
    pub fn is_func(addr: u64) -> bool {
        addr >= FUNC_BASE && addr < GLOBAL_BASE
    }
}
