//! Byte-addressed memory: objects at concrete addresses, copy-on-write pages of byte cells.

use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PG: u64 = 64;
pub const UNDEF: E = u32::MAX;

/// byte `b` of term `e` (little endian)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell {
    pub e: E,
    pub b: u8,
}
pub const UCELL: Cell = Cell { e: UNDEF, b: 0 };
pub type Page = [Cell; PG as usize];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Const,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub kind: Kind,
    pub fill: Cell,
    pub pages: Vec<Option<Rc<Page>>>,
}

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind, fill: Cell) -> Obj {
        Obj { base, size, kind, fill, pages: vec![None; ((size + PG - 1) / PG) as usize] }
    }
    #[inline]
    pub fn cell(&self, off: u64) -> Cell {
        match &self.pages[(off / PG) as usize] {
            Some(p) => p[(off % PG) as usize],
            None => self.fill,
        }
    }
    #[inline]
    pub fn set(&mut self, off: u64, c: Cell) {
        let fill = self.fill;
        let p = self.pages[(off / PG) as usize].get_or_insert_with(|| Rc::new([fill; PG as usize]));
        if p[(off % PG) as usize] == c {
            return;
        }
        Rc::make_mut(p)[(off % PG) as usize] = c;
    }
    pub fn wipe(&mut self) {
        for p in self.pages.iter_mut() {
            *p = None;
        }
        self.fill = UCELL;
    }
    pub fn read_cells(&self, off: u64, n: u64) -> Vec<Cell> {
        (0..n).map(|i| self.cell(off + i)).collect()
    }
    /// term formed by `n` bytes
    pub fn read(&self, cx: &mut Ctx, off: u64, n: u64) -> E {
        let mut buf = [UCELL; 16];
        for i in 0..n {
            buf[i as usize] = self.cell(off + i);
        }
        assemble(cx, &buf[..n as usize])
    }
    pub fn write(&mut self, cx: &Ctx, off: u64, e: E, n: u64) {
        debug_assert!(cx.w(e) as u64 == n * 8);
        let _ = cx;
        for i in 0..n {
            self.set(off + i, Cell { e, b: i as u8 });
        }
    }
    /// number of bytes of the intact stored unit that begins at `off` (0 if none)
    pub fn unit(&self, cx: &Ctx, off: u64) -> u64 {
        let c = self.cell(off);
        if c.e == UNDEF || c.b != 0 {
            return 0;
        }
        let n = cx.w(c.e) as u64 / 8;
        if off + n > self.size {
            return 0;
        }
        for i in 1..n {
            if self.cell(off + i) != (Cell { e: c.e, b: i as u8 }) {
                return 0;
            }
        }
        n
    }
}

pub fn assemble(cx: &mut Ctx, c: &[Cell]) -> E {
    let n = c.len();
    let e0 = c[0].e;
    if e0 != UNDEF && c[0].b == 0 && cx.w(e0) as usize == n * 8 && c.iter().enumerate().all(|(i, x)| x.e == e0 && x.b as usize == i) {
        return e0;
    }
    let mut acc: Option<E> = None;
    let mut i = 0;
    while i < n {
        let e = c[i].e;
        let mut j = i + 1;
        let part;
        if e == UNDEF {
            while j < n && c[j].e == UNDEF {
                j += 1;
            }
            part = cx.k(((j - i) * 8) as u8, 0);
        } else {
            while j < n && c[j].e == e && c[j].b == c[i].b + (j - i) as u8 {
                j += 1;
            }
            let lo = c[i].b * 8;
            let w = ((j - i) * 8) as u8;
            part = if lo == 0 && cx.w(e) == w { e } else { cx.extract(e, lo, w) };
        }
        acc = Some(match acc {
            None => part,
            Some(a) => cx.concat(part, a),
        });
        i = j;
    }
    acc.unwrap()
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: Rc<BTreeMap<u64, Rc<Obj>>>,
}

impl Mem {
    /// object containing `addr` (one past the end is accepted when `addr` is the end of an object)
    #[inline]
    pub fn find(&self, addr: u64) -> Option<&Rc<Obj>> {
        let (_, o) = self.objs.range(..=addr).next_back()?;
        if addr <= o.base + o.size {
            Some(o)
        } else {
            None
        }
    }
    pub fn get_mut(&mut self, base: u64) -> &mut Obj {
        Rc::make_mut(Rc::make_mut(&mut self.objs).get_mut(&base).unwrap())
    }
    pub fn insert(&mut self, o: Rc<Obj>) {
        Rc::make_mut(&mut self.objs).insert(o.base, o);
    }
    pub fn remove(&mut self, base: u64) -> Option<Rc<Obj>> {
        Rc::make_mut(&mut self.objs).remove(&base)
    }
    /// lowest free address in [lo,hi): makes addresses a function of the live set
    pub fn place(&self, lo: u64, hi: u64, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let up = |x: u64| (x + al - 1) / al * al;
        let mut at = up(lo);
        for (b, o) in self.objs.range(lo..hi) {
            if at + size + 32 <= *b {
                return at;
            }
            at = up(b + o.size + 32);
        }
        at
    }
}
