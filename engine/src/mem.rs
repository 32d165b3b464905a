// Object memory with copy-on-write sharing between states.
use crate::expr::E;
use std::rc::Rc;

pub const HEAP_BASE: u32 = 0x10_0000;
const CH: usize = 32;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete byte
    pub stack: bool,
}
impl Obj {
    pub fn new(n: usize, stack: bool) -> Obj {
        Obj { data: vec![0; n], sym: None, stack }
    }
    #[inline]
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| *x == 0),
        }
    }
    #[inline]
    pub fn get_int(&self, off: usize, n: usize) -> u128 {
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&self.data[off..off + n]);
        u128::from_le_bytes(b)
    }
    #[inline]
    pub fn set_int(&mut self, off: usize, n: usize, v: u128) {
        self.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + n] {
                *x = 0;
            }
        }
    }
    pub fn sym_mut(&mut self) -> &mut Vec<E> {
        if self.sym.is_none() {
            self.sym = Some(vec![0; self.data.len()]);
        }
        self.sym.as_mut().unwrap()
    }
    // copy n bytes from src
    pub fn copy_from(&mut self, off: usize, src: &Obj, soff: usize, n: usize) {
        self.data[off..off + n].copy_from_slice(&src.data[soff..soff + n]);
        match &src.sym {
            Some(s) if s[soff..soff + n].iter().any(|x| *x != 0) => {
                let d = self.sym_mut();
                d[off..off + n].copy_from_slice(&s[soff..soff + n]);
            }
            _ => {
                if let Some(d) = &mut self.sym {
                    for x in &mut d[off..off + n] {
                        *x = 0;
                    }
                }
            }
        }
    }
}

type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u32,
    pub globals: Vec<Option<Rc<Obj>>>,
    pub live: usize,
    pub bytes: u64,
}
impl Mem {
    pub fn new(nglobals: usize) -> Mem {
        Mem { chunks: vec![], free: vec![], next: 0, globals: vec![None; nglobals], live: 0, bytes: 0 }
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let i = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        self.bytes += o.data.len() as u64;
        let c = i as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(Default::default()));
        }
        Rc::make_mut(&mut self.chunks[c])[i as usize % CH] = Some(Rc::new(o));
        self.live += 1;
        i + HEAP_BASE
    }
    pub fn free(&mut self, id: u32) -> bool {
        if id < HEAP_BASE {
            return false;
        }
        let i = (id - HEAP_BASE) as usize;
        if i / CH >= self.chunks.len() {
            return false;
        }
        let slot = &mut Rc::make_mut(&mut self.chunks[i / CH])[i % CH];
        match slot {
            None => return false,
            Some(o) => self.bytes -= o.data.len() as u64,
        }
        *slot = None;
        self.free.push(i as u32);
        self.live -= 1;
        true
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        if id >= HEAP_BASE {
            let i = (id - HEAP_BASE) as usize;
            self.chunks.get(i / CH)?[i % CH].as_ref()
        } else {
            self.globals.get((id as u64 - crate::ir::GLOBAL_BASE) as usize)?.as_ref()
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= HEAP_BASE {
            let i = (id - HEAP_BASE) as usize;
            let c = self.chunks.get_mut(i / CH)?;
            Rc::make_mut(c)[i % CH].as_mut().map(Rc::make_mut)
        } else {
            self.globals.get_mut((id as u64 - crate::ir::GLOBAL_BASE) as usize)?.as_mut().map(Rc::make_mut)
        }
    }
}
