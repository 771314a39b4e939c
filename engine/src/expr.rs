//! Hash-consed bit-vector / floating-point terms with simplification.
//!
//! Every term is a bit-vector of width 1..=128.  Floating-point operations work on the
//! IEEE-754 bit patterns (width 32 or 64).  A side table records for some float terms an
//! exact integer representation (`int * 2^-scale`), which lets comparisons and
//! float-to-int conversions be decided over bit-vectors without approximating anything.

use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Sym,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // a, lo in b
    Concat,  // hi, lo
    // floating point
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FRnd, // b = mode 0 floor 1 ceil 2 trunc 3 nearest-even(rint) 4 round-half-away
    FLt,
    FLe,
    FEq,
    FNan,
    SToF,
    UToF,
    FToS, // saturating, RTZ, NaN->0
    FToU,
    FCvt, // float<->double
    FRem,
    FMa,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub slo: i128,
    pub shi: i128,
    pub leaves: u32, // >0: ite-tree over constants with this many constant leaves (1 for const)
    pub has_fp: bool,
    pub depth: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E, BuildFx>,
    pub consts: Vec<u128>,
    const_map: HashMap<(u8, u128), E, BuildFx>,
    pub syms: Vec<(E, String, u8)>,
    pub fixed: HashMap<E, (E, i32), BuildFx>, // float term -> exact signed 64-bit int term, scale (value = int * 2^-scale)
    pub tru: E,
    pub fls: E,
    eval_gen: Vec<u32>,
    eval_val: Vec<u128>,
    pub gen: u32,
    symset: HashMap<E, std::rc::Rc<Vec<u32>>, BuildFx>,
    lift_memo: HashMap<(u8, u8, u32, u32), E, BuildFx>,
}

#[derive(Clone, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn sfull(w: u8) -> (i128, i128) {
    if w >= 128 {
        return (i128::MIN, i128::MAX);
    }
    let h = (1i128 << (w - 1)) - 1;
    (-h - 1, h)
}

pub type Model = Vec<u128>;

const LIFT_MAX: u32 = 96;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            info: vec![],
            map: Default::default(),
            consts: vec![],
            const_map: Default::default(),
            syms: vec![],
            fixed: Default::default(),
            tru: 0,
            fls: 0,
            eval_gen: vec![],
            eval_val: vec![],
            gen: 0,
            symset: Default::default(),
            lift_memo: Default::default(),
        };
        c.fls = c.k(1, 0);
        c.tru = c.k(1, 1);
        c
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn k(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        if let Some(e) = self.const_map.get(&(w, v)) {
            return *e;
        }
        let id = self.nodes.len() as E;
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        self.nodes.push(Node { op: Op::Const, w, a: ci, b: 0, c: 0 });
        let sv = sext(v, w);
        self.info.push(Info { lo: v, hi: v, slo: sv, shi: sv, leaves: 1, has_fp: false, depth: 0 });
        self.const_map.insert((w, v), id);
        if w == 32 || w == 64 {
            // exact fixed representation of float constants is added lazily by fixed_of
        }
        id
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn is_const(&self, e: E) -> bool {
        self.nodes[e as usize].op == Op::Const
    }
    pub fn b(&self, v: bool) -> E {
        if v {
            self.tru
        } else {
            self.fls
        }
    }
    pub fn sym(&mut self, w: u8, name: &str) -> E {
        let id = self.nodes.len() as E;
        let si = self.syms.len() as u32;
        self.syms.push((id, name.to_string(), w));
        self.nodes.push(Node { op: Op::Sym, w, a: si, b: 0, c: 0 });
        let (slo, shi) = sfull(w);
        self.info.push(Info { lo: 0, hi: mask(w), slo, shi, leaves: 0, has_fp: false, depth: 0 });
        id
    }
    /// restrict the interval of a symbol; the caller keeps `sym <= hi` on every path that uses it
    pub fn bound_sym(&mut self, e: E, hi: u128) {
        let w = self.w(e);
        let i = &mut self.info[e as usize];
        i.hi = hi;
        if hi <= mask(w) >> 1 {
            i.slo = 0;
            i.shi = hi as i128;
        }
    }
    /// `a <= b` built without simplification (used for the bounds behind `bound_sym`)
    pub fn raw_ule(&mut self, a: E, b: E) -> E {
        let n = Node { op: Op::Ule, w: 1, a, b, c: 0 };
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(Info { lo: 0, hi: 1, slo: -1, shi: 0, leaves: 0, has_fp: false, depth: 1 });
        id
    }
    fn mk(&mut self, op: Op, w: u8, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let info = self.compute_info(&n);
        // interval says constant
        if info.lo == info.hi && op != Op::Const {
            let k = self.k(w, info.lo);
            self.map.insert(n, k);
            return k;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, id);
        id
    }
    fn compute_info(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let full = (0u128, m);
        let ia = |x: u32| self.info[x as usize];
        let mut has_fp = false;
        let mut depth = 0;
        let nargs = match n.op {
            Op::Const | Op::Sym => 0,
            Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FSqrt | Op::FRnd | Op::FNan | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FCvt => 1,
            Op::Ite | Op::FMa => 3,
            _ => 2,
        };
        for i in 0..nargs {
            let x = [n.a, n.b, n.c][i];
            has_fp |= self.info[x as usize].has_fp;
            depth = depth.max(self.info[x as usize].depth + 1);
        }
        has_fp |= n.op as u8 >= Op::FAdd as u8;
        let (lo, hi) = match n.op {
            Op::Add => {
                let (a, b) = (ia(n.a), ia(n.b));
                match (a.hi.checked_add(b.hi), a.lo.checked_add(b.lo)) {
                    (Some(h), Some(l)) if h <= m => (l, h),
                    _ => full,
                }
            }
            Op::Sub => {
                let (a, b) = (ia(n.a), ia(n.b));
                if a.lo >= b.hi {
                    (a.lo - b.hi, a.hi - b.lo)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (ia(n.a), ia(n.b));
                match a.hi.checked_mul(b.hi) {
                    Some(h) if h <= m => (a.lo * b.lo, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo > 0 {
                    (a.lo / b.hi, a.hi / b.lo)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo > 0 {
                    if a.hi < b.lo {
                        (a.lo, a.hi)
                    } else {
                        (0, a.hi.min(b.hi - 1))
                    }
                } else {
                    full
                }
            }
            Op::And => {
                let (a, b) = (ia(n.a), ia(n.b));
                (0, a.hi.min(b.hi))
            }
            Op::Or | Op::Xor => {
                let (a, b) = (ia(n.a), ia(n.b));
                let top = a.hi | b.hi;
                let bits = 128 - top.leading_zeros();
                let h = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let lo = if n.op == Op::Or { a.lo.max(b.lo) } else { 0 };
                (lo, h.min(m))
            }
            Op::Shl => {
                let (a, b) = (ia(n.a), ia(n.b));
                if b.lo == b.hi && b.lo < n.w as u128 {
                    match a.hi.checked_shl(b.lo as u32) {
                        Some(h) if (h >> b.lo) == a.hi && h <= m => (a.lo << b.lo, h),
                        _ => full,
                    }
                } else {
                    full
                }
            }
            Op::LShr => {
                let (a, b) = (ia(n.a), ia(n.b));
                let l = if b.hi < 128 { a.lo >> b.hi } else { 0 };
                let h = if b.lo < 128 { a.hi >> b.lo } else { 0 };
                (l, h)
            }
            Op::Ite => {
                let (a, b) = (ia(n.b), ia(n.c));
                (a.lo.min(b.lo), a.hi.max(b.hi))
            }
            Op::ZExt => {
                let a = ia(n.a);
                (a.lo, a.hi)
            }
            Op::SExt => {
                let a = ia(n.a);
                let wa = self.nodes[n.a as usize].w;
                if a.hi < (1u128 << (wa - 1)) {
                    (a.lo, a.hi)
                } else {
                    full
                }
            }
            Op::Extract => {
                let a = ia(n.a);
                if n.b == 0 {
                    if a.hi <= m {
                        (a.lo, a.hi)
                    } else {
                        full
                    }
                } else {
                    let h = a.hi >> n.b;
                    if h <= m {
                        (a.lo >> n.b, h)
                    } else {
                        full
                    }
                }
            }
            Op::Concat => {
                let (a, b) = (ia(n.a), ia(n.b));
                let wb = self.nodes[n.b as usize].w;
                ((a.lo << wb) | b.lo, (a.hi << wb) | b.hi)
            }
            Op::Const => {
                let v = self.consts[n.a as usize];
                (v, v)
            }
            _ => full,
        };
        let leaves = if n.op == Op::Ite {
            let (x, y) = (ia(n.b).leaves, ia(n.c).leaves);
            if x > 0 && y > 0 && x + y <= LIFT_MAX {
                x + y
            } else {
                0
            }
        } else {
            0
        };
        let (slo, shi) = self.compute_s(n, lo, hi);
        // a signed interval on one side of zero also bounds the unsigned one
        let (mut lo, mut hi) = (lo, hi);
        if slo >= 0 {
            lo = lo.max(slo as u128);
            hi = hi.min(shi as u128);
        }
        Info { lo, hi, slo, shi, leaves, has_fp, depth }
    }
    fn compute_s(&self, n: &Node, lo: u128, hi: u128) -> (i128, i128) {
        let (fl, fh) = sfull(n.w);
        if n.w > 100 {
            return (fl, fh);
        }
        let half = 1u128 << (n.w - 1);
        let base = if hi < half {
            (lo as i128, hi as i128)
        } else if lo >= half {
            (sext(lo, n.w), sext(hi, n.w))
        } else {
            (fl, fh)
        };
        let s = |x: u32| (self.info[x as usize].slo, self.info[x as usize].shi);
        let fit = |l: i128, h: i128| if l >= fl && h <= fh { (l.max(base.0), h.min(base.1)) } else { base };
        match n.op {
            Op::SExt => {
                let x = s(n.a);
                fit(x.0, x.1)
            }
            Op::Add => {
                let (x, y) = (s(n.a), s(n.b));
                fit(x.0 + y.0, x.1 + y.1)
            }
            Op::Sub => {
                let (x, y) = (s(n.a), s(n.b));
                fit(x.0 - y.1, x.1 - y.0)
            }
            Op::Mul => {
                let (x, y) = (s(n.a), s(n.b));
                let c = [x.0.checked_mul(y.0), x.0.checked_mul(y.1), x.1.checked_mul(y.0), x.1.checked_mul(y.1)];
                if c.iter().any(|v| v.is_none()) {
                    return base;
                }
                let c: Vec<i128> = c.iter().map(|v| v.unwrap()).collect();
                let mut l = *c.iter().min().unwrap();
                if n.a == n.b {
                    l = l.max(0);
                }
                fit(l, *c.iter().max().unwrap())
            }
            Op::Concat => {
                if self.cv(n.b) == Some(0) {
                    let wl = self.w(n.b) as u32;
                    let x = s(n.a);
                    return fit(x.0 << wl, x.1 << wl);
                }
                base
            }
            Op::Ite => {
                let (x, y) = (s(n.b), s(n.c));
                fit(x.0.min(y.0), x.1.max(y.1))
            }
            Op::Extract if n.b == 0 => {
                let x = s(n.a);
                fit(x.0, x.1)
            }
            Op::SDiv => {
                let (x, y) = (s(n.a), s(n.b));
                if y.0 > 0 {
                    fit((x.0 / y.0).min(x.0 / y.1), (x.1 / y.0).max(x.1 / y.1))
                } else {
                    base
                }
            }
            Op::SRem => {
                let (x, y) = (s(n.a), s(n.b));
                if y.0 > 0 {
                    fit(if x.0 < 0 { -(y.1 - 1) } else { 0 }, if x.1 > 0 { y.1 - 1 } else { 0 })
                } else {
                    base
                }
            }
            Op::AShr => {
                let (x, y) = (s(n.a), s(n.b));
                if y.0 >= 0 && y.0 == y.1 && y.0 < n.w as i128 {
                    fit(x.0 >> y.0, x.1 >> y.0)
                } else {
                    base
                }
            }
            _ => base,
        }
    }

    // ---------- boolean ----------
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        let w = n.w;
        if let Some(v) = self.cv(a) {
            return self.k(w, !v);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if n.op == Op::Ite && w == 1 {
            let x = self.not(n.b);
            let y = self.not(n.c);
            return self.ite(n.a, x, y);
        }
        if w == 1 {
            match n.op {
                Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
                Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
                Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
                Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.mk(Op::Not, w, a, 0, 0)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return true;
        }
        if na.w == 1 {
            let pair = |x: Node, y: Node| {
                ((x.op == Op::Ult && y.op == Op::Ule) || (x.op == Op::Slt && y.op == Op::Sle)) && x.a == y.b && x.b == y.a
            };
            return pair(na, nb) || pair(nb, na);
        }
        false
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if let Some(v) = self.cv(a) {
                return if v != 0 {
                    self.or(c, b)
                } else {
                    let nc = self.not(c);
                    self.and(nc, b)
                };
            }
            if let Some(v) = self.cv(b) {
                return if v != 0 {
                    let nc = self.not(c);
                    self.or(nc, a)
                } else {
                    self.and(c, a)
                };
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::Ite {
            if na.a == c {
                return self.ite(c, na.b, b);
            }
            if self.is_not_of(na.a, c) {
                return self.ite(c, na.c, b);
            }
            // ite(c, ite(d, x, b), b) = ite(c&d, x, b)
            if na.c == b {
                let cd = self.and(c, na.a);
                return self.ite(cd, na.b, b);
            }
            if na.b == b {
                let nd = self.not(na.a);
                let cd = self.and(c, nd);
                return self.ite(cd, na.c, b);
            }
        }
        if nb.op == Op::Ite {
            if nb.a == c {
                return self.ite(c, a, nb.c);
            }
            if self.is_not_of(nb.a, c) {
                return self.ite(c, a, nb.b);
            }
            // ite(c, a, ite(d, a, y)) = ite(c|d, a, y)
            if nb.b == a {
                let cd = self.or(c, nb.a);
                return self.ite(cd, a, nb.c);
            }
            if nb.c == a {
                let nd = self.not(nb.a);
                let cd = self.or(c, nd);
                return self.ite(cd, a, nb.b);
            }
        }
        let r = self.mk(Op::Ite, w, c, a, b);
        if w == 32 || w == 64 {
            self.lift_fixed_ite(r, c, a, b);
        }
        r
    }
    fn lift_fixed_ite(&mut self, r: E, c: E, a: E, b: E) {
        if self.fixed.contains_key(&r) {
            return;
        }
        if !(self.fixed.contains_key(&a) || self.fixed.contains_key(&b)) {
            return;
        }
        let w = self.w(a);
        if let (Some((ai, asc)), Some((bi, bsc))) = (self.fixed_of(a, w), self.fixed_of(b, w)) {
            if let Some((x, y, s)) = self.align_scale(ai, asc, bi, bsc) {
                let i = self.ite(c, x, y);
                self.fixed.insert(r, (i, s));
            }
        }
    }

    // ---------- generic ----------
    fn fold2(&self, op: Op, w: u8, x: u128, y: u128) -> Option<u128> {
        let m = mask(w);
        let wi = w as u128;
        Some(match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    if a >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    (a.wrapping_div(b) as u128) & m
                }
            }
            Op::SRem => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    x
                } else {
                    (a.wrapping_rem(b) as u128) & m
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= wi {
                    0
                } else {
                    (x << y) & m
                }
            }
            Op::LShr => {
                if y >= wi {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sext(x, w);
                let sh = if y >= wi { 127 } else { y as u32 };
                ((s >> sh) as u128) & m
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sext(x, w) < sext(y, w)) as u128,
            Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
            _ => return None,
        })
    }
    /// lift a binary op over an ite-tree of constants when the other side is constant
    fn lift2(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.leaves == 0 || ib.leaves == 0 {
            return None;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if ia.leaves > 1 && ib.leaves > 1 {
            // same condition: split together
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                let x = self.bin(op, na.b, nb.b);
                let y = self.bin(op, na.c, nb.c);
                return Some(self.ite(na.a, x, y));
            }
            if ia.leaves * ib.leaves > 16 {
                return None;
            }
        }
        let key = (op as u8, 0, a, b);
        if let Some(r) = self.lift_memo.get(&key) {
            return Some(*r);
        }
        let r = if ia.leaves > 1 {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            self.ite(na.a, x, y)
        } else {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            self.ite(nb.a, x, y)
        };
        self.lift_memo.insert(key, r);
        Some(r)
    }
    fn lift1(&mut self, tag: u8, a: E, p: u32, f: &mut dyn FnMut(&mut Ctx, E) -> E) -> Option<E> {
        let ia = self.info[a as usize];
        if ia.leaves <= 1 {
            return None;
        }
        let key = (255, tag, a, p);
        if let Some(r) = self.lift_memo.get(&key) {
            return Some(*r);
        }
        let na = self.n(a);
        let x = f(self, na.b);
        let y = f(self, na.c);
        let r = self.ite(na.a, x, y);
        self.lift_memo.insert(key, r);
        Some(r)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        self.bin(op, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        let iscmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if iscmp { 1 } else { w };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = self.fold2(op, w, x, y).unwrap();
            return self.k(rw, v);
        }
        // canonical order for commutative
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                return self.bin_c(op, w, rw, b, a);
            }
        }
        self.bin_c(op, w, rw, a, b)
    }
    fn bin_c(&mut self, op: Op, w: u8, rw: u8, a: E, b: E) -> E {
        let (ca, cb) = (self.cv(a), self.cv(b));
        let m = mask(w);
        let (na, nb) = (self.n(a), self.n(b));
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.k(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Sub {
                        if let Some(k2) = self.cv(na.a) {
                            let kk = self.k(w, k.wrapping_add(k2));
                            return self.bin(Op::Sub, kk, na.b);
                        }
                    }
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
            }
            Op::Sub => {
                if a == b {
                    return self.k(w, 0);
                }
                if let Some(k) = cb {
                    let nk = self.k(w, 0u128.wrapping_sub(k));
                    return self.bin(Op::Add, a, nk);
                }
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    // (x + k) - (y + k') handled below
                    if let Some(k) = self.cv(na.b) {
                        if nb.op == Op::Add {
                            if let Some(k2) = self.cv(nb.b) {
                                let d = self.bin(Op::Sub, na.a, nb.a);
                                let kk = self.k(w, k.wrapping_sub(k2));
                                return self.bin(Op::Add, d, kk);
                            }
                        }
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let sh = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, sh);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if self.is_not_of(a, b) {
                    return self.k(w, 0);
                }
                if let Some(k) = cb {
                    // low mask covers the range
                    if (k & (k.wrapping_add(1))) == 0 && ia.hi <= k {
                        return a;
                    }
                    // low mask -> zext(extract)
                    if (k & (k.wrapping_add(1))) == 0 {
                        let bits = 128 - k.leading_zeros();
                        if bits < w as u32 {
                            let x = self.extract(a, 0, bits as u8);
                            return self.zext(x, w);
                        }
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.k(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                }
                if w == 1 {
                    // absorption
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    // a & (!a | x) = a & x
                    if nb.op == Op::Or {
                        if self.is_not_of(nb.a, a) {
                            return self.bin(Op::And, a, nb.b);
                        }
                        if self.is_not_of(nb.b, a) {
                            return self.bin(Op::And, a, nb.a);
                        }
                    }
                    if na.op == Op::Or {
                        if self.is_not_of(na.a, b) {
                            return self.bin(Op::And, b, na.b);
                        }
                        if self.is_not_of(na.b, b) {
                            return self.bin(Op::And, b, na.a);
                        }
                    }
                    // (x & y) & !x = false
                    if na.op == Op::And && (self.is_not_of(na.a, b) || self.is_not_of(na.b, b)) {
                        return self.fls;
                    }
                    if nb.op == Op::And && (self.is_not_of(nb.a, a) || self.is_not_of(nb.b, a)) {
                        return self.fls;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if self.is_not_of(a, b) {
                    return self.k(w, m);
                }
                if w == 1 {
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return b;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return a;
                    }
                    if nb.op == Op::And {
                        if self.is_not_of(nb.a, a) {
                            return self.bin(Op::Or, a, nb.b);
                        }
                        if self.is_not_of(nb.b, a) {
                            return self.bin(Op::Or, a, nb.a);
                        }
                    }
                    if na.op == Op::And {
                        if self.is_not_of(na.a, b) {
                            return self.bin(Op::Or, b, na.b);
                        }
                        if self.is_not_of(na.b, b) {
                            return self.bin(Op::Or, b, na.a);
                        }
                    }
                    // (x&y)|(x&!y) = x
                    if na.op == Op::And && nb.op == Op::And {
                        for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                            for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                                if p == r {
                                    if self.is_not_of(q, s) {
                                        return p;
                                    }
                                    let o = self.bin(Op::Or, q, s);
                                    return self.bin(Op::And, p, o);
                                }
                            }
                        }
                    }
                    if na.op == Op::Or && (self.is_not_of(na.a, b) || self.is_not_of(na.b, b)) {
                        return self.tru;
                    }
                    if nb.op == Op::Or && (self.is_not_of(nb.a, a) || self.is_not_of(nb.b, a)) {
                        return self.tru;
                    }
                }
                // disjoint bits: or of concat-like  zext(x) | (y << k)
                if w > 1 {
                    if let Some(r) = self.or_as_concat(w, a, b) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.k(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return self.not(a);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        if op == Op::AShr {
                            let t = self.k(w, (w - 1) as u128);
                            return self.bin(Op::AShr, a, t);
                        }
                        return self.k(w, 0);
                    }
                    let k = k as u8;
                    if op == Op::LShr || (op == Op::AShr && ia.hi < (1u128 << (w - 1))) {
                        let x = self.extract(a, k, w - k);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl {
                        let x = self.extract(a, 0, w - k);
                        let z = self.k(k, 0);
                        return self.concat(x, z);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru;
                }
                if ia.hi < ib.lo || ib.hi < ia.lo {
                    return self.fls;
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if self.is_not_of(a, b) {
                        return self.fls;
                    }
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let wi = self.w(na.a);
                            if k > mask(wi) {
                                return self.fls;
                            }
                            let kk = self.k(wi, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let wi = self.w(na.a);
                            let t = k & mask(wi);
                            if (sext(t, wi) as u128) & m != k {
                                return self.fls;
                            }
                            let kk = self.k(wi, t);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.k(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Sub => {
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Xor => {
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Not => {
                            let kk = self.k(w, !k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let kh = self.k(w - wl, k >> wl);
                            let kl = self.k(wl, k);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.and(x, y);
                        }
                        Op::Ite => {
                            let (lb, lc) = (self.cv(na.b), self.cv(na.c));
                            if lb.is_some() || lc.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                // x + k == x
                if na.op == Op::Add && na.a == b && self.cv(na.b).is_some() {
                    return self.fls;
                }
                if nb.op == Op::Add && nb.a == a && self.cv(nb.b).is_some() {
                    return self.fls;
                }
            }
            Op::Ult => {
                if a == b {
                    return self.fls;
                }
                if ia.hi < ib.lo {
                    return self.tru;
                }
                if ia.lo >= ib.hi {
                    return self.fls;
                }
                if ia.slo >= 0 && ib.slo >= 0 {
                    if let Some(d) = self.fixed_difference(a, b) {
                        return self.b(d < 0);
                    }
                }
                if cb == Some(1) {
                    let z = self.k(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let e = self.bin(Op::Eq, b, a);
                    return self.not(e);
                }
                if let Some(k) = cb {
                    if na.op == Op::ZExt {
                        let wi = self.w(na.a);
                        if k <= mask(wi) {
                            let kk = self.k(wi, k);
                            return self.bin(Op::Ult, na.a, kk);
                        }
                    }
                }
                if let Some(k) = ca {
                    if nb.op == Op::ZExt {
                        let wi = self.w(nb.a);
                        if k <= mask(wi) {
                            let kk = self.k(wi, k);
                            return self.bin(Op::Ult, kk, nb.a);
                        }
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                if a == b {
                    return self.tru;
                }
                if ia.hi <= ib.lo {
                    return self.tru;
                }
                if ia.lo > ib.hi {
                    return self.fls;
                }
                if ia.slo >= 0 && ib.slo >= 0 {
                    if let Some(d) = self.fixed_difference(a, b) {
                        return self.b(d <= 0);
                    }
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                // normalise a <= k  to  a < k+1 ; k <= b to k-1 < b
                if let Some(k) = cb {
                    let kk = self.k(w, k + 1);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ca {
                    let kk = self.k(w, k - 1);
                    return self.bin(Op::Ult, kk, b);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ule, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.b(op == Op::Sle);
                }
                let half = 1u128 << (w - 1);
                // both non-negative
                if ia.hi < half && ib.hi < half {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                // both negative
                if ia.lo >= half && ib.lo >= half {
                    let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.bin(o, a, b);
                }
                if ia.lo >= half && ib.hi < half {
                    return self.tru;
                }
                if ia.hi < half && ib.lo >= half {
                    return self.fls;
                }
                let (sa, sb) = (self.srange(a), self.srange(b));
                if let (Some((al, ah)), Some((bl, bh))) = (sa, sb) {
                    if op == Op::Slt {
                        if ah < bl {
                            return self.tru;
                        }
                        if al >= bh {
                            return self.fls;
                        }
                    } else {
                        if ah <= bl {
                            return self.tru;
                        }
                        if al > bh {
                            return self.fls;
                        }
                    }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if let Some(d) = self.fixed_difference(a, b) {
                    return self.b(if op == Op::Slt { d < 0 } else { d <= 0 });
                }
                if op == Op::Sle {
                    if let Some(k) = cb {
                        if k != half - 1 {
                            let kk = self.k(w, k.wrapping_add(1));
                            return self.bin(Op::Slt, a, kk);
                        }
                        return self.tru;
                    }
                    if let Some(k) = ca {
                        if k != half {
                            let kk = self.k(w, k.wrapping_sub(1));
                            return self.bin(Op::Slt, kk, b);
                        }
                        return self.tru;
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.k(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.k(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if k != 0 && ia.hi < k {
                        return a;
                    }
                } else if ib.lo > 0 && ia.hi < ib.lo {
                    return a;
                }
            }
            Op::SDiv | Op::SRem => {
                let half = 1u128 << (w - 1);
                if ia.hi < half && ib.hi < half && ib.lo > 0 {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
            }
            _ => {}
        }
        if ia.leaves > 0 && ib.leaves > 0 {
            if let Some(r) = self.lift2(op, a, b) {
                return r;
            }
        }
        // same condition ites with at least some constants
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let kc = [na.b, na.c, nb.b, nb.c].iter().filter(|x| self.is_const(**x)).count();
            if kc >= 2 {
                let x = self.bin(op, na.b, nb.b);
                let y = self.bin(op, na.c, nb.c);
                return self.ite(na.a, x, y);
            }
        }
        self.mk(op, rw, a, b, 0)
    }
    /// signed range of a term
    /// `a` read as a signed number, as a sum of multiples of atoms and a constant, when no step wraps
    fn linear(&self, a: E, m: i128, out: &mut Vec<(E, i128)>, depth: u32) -> Option<i128> {
        let n = self.n(a).clone();
        let w = n.w;
        if depth == 0 || w > 64 {
            return None;
        }
        let (lo, hi) = self.srange(a)?;
        let fits = |l: i128, h: i128| l >= -(1i128 << (w - 1)) && h < (1i128 << (w - 1));
        match n.op {
            Op::Const => return Some(m * lo),
            Op::Add | Op::Sub => {
                let ((al, ah), (bl, bh)) = (self.srange(n.a)?, self.srange(n.b)?);
                let s = if n.op == Op::Add { 1 } else { -1 };
                let (l, h) = if s == 1 { (al + bl, ah + bh) } else { (al - bh, ah - bl) };
                if fits(l, h) {
                    let x = self.linear(n.a, m, out, depth - 1)?;
                    let y = self.linear(n.b, s * m, out, depth - 1)?;
                    return Some(x + y);
                }
            }
            Op::Mul => {
                for (x, k) in [(n.a, n.b), (n.b, n.a)] {
                    if self.cv(k).is_some() {
                        let ((xl, xh), (k, _)) = (self.srange(x)?, self.srange(k)?);
                        if k.abs() < 1 << 40 && fits((xl * k).min(xh * k), (xl * k).max(xh * k)) {
                            return self.linear(x, m.checked_mul(k)?, out, depth - 1);
                        }
                    }
                }
            }
            Op::SExt => return self.linear(n.a, m, out, depth - 1),
            Op::ZExt => {
                if self.srange(n.a)?.0 >= 0 {
                    return self.linear(n.a, m, out, depth - 1);
                }
            }
            Op::Concat => {
                if self.cv(n.b) == Some(0) {
                    return self.linear(n.a, m.checked_mul(1i128 << self.w(n.b))?, out, depth - 1);
                }
            }
            _ => {}
        }
        if m.abs() > 1 << 60 || out.len() >= 12 {
            return None;
        }
        let _ = hi;
        match out.iter_mut().find(|(e, _)| *e == a) {
            Some(t) => t.1 += m,
            None => out.push((a, m)),
        }
        Some(0)
    }
    /// a - b as signed numbers, when it is the same for all values
    fn fixed_difference(&self, a: E, b: E) -> Option<i128> {
        let step = |o: Op| matches!(o, Op::Add | Op::Sub | Op::Mul | Op::SExt | Op::ZExt | Op::Concat);
        if self.w(a) < 16 || !step(self.n(a).op) && !step(self.n(b).op) || self.cv(a).is_some() || self.cv(b).is_some() {
            return None;
        }
        let mut t = vec![];
        let x = self.linear(a, 1, &mut t, 12)?;
        let y = self.linear(b, -1, &mut t, 12)?;
        if t.iter().all(|(_, m)| *m == 0) {
            Some(x + y)
        } else {
            None
        }
    }
    pub fn srange(&self, a: E) -> Option<(i128, i128)> {
        let i = &self.info[a as usize];
        Some((i.slo, i.shi))
    }
    fn low_zero_bits(&self, a: E) -> u8 {
        let n = self.n(a);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                if v == 0 {
                    n.w
                } else {
                    v.trailing_zeros() as u8
                }
            }
            Op::Concat => {
                let z = self.low_zero_bits(n.b);
                let wl = self.w(n.b);
                if z == wl {
                    wl + self.low_zero_bits(n.a)
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    fn or_as_concat(&mut self, w: u8, a: E, b: E) -> Option<E> {
        for (hi, lo) in [(a, b), (b, a)] {
            let z = self.low_zero_bits(hi);
            if z > 0 && z < w {
                let lo_hi = self.info[lo as usize].hi;
                if lo_hi <= mask(z) {
                    let x = self.extract(hi, z, w - z);
                    let y = self.extract(lo, 0, z);
                    return Some(self.concat(x, y));
                }
            }
        }
        None
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.k(w, v);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if let Some(r) = self.lift1(1, a, w as u32, &mut |c, x| c.zext(x, w)) {
            return r;
        }
        self.mk(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.k(w, sext(v, n.w) as u128);
        }
        if self.info[a as usize].hi < (1u128 << (n.w - 1)) {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if let Some(r) = self.lift1(2, a, w as u32, &mut |c, x| c.sext(x, w)) {
            return r;
        }
        self.mk(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        if let Some(v) = self.cv(a) {
            return self.k(w, v >> lo);
        }
        match n.op {
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.k(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Extract => return self.extract(n.a, lo + n.b as u8, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let hi = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(hi, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, lo as u32, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.k(w, (x << nl.w) | y);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            return self.extract(nh.a, nl.b as u8, w);
        }
        // concat(extract(x, k, ..), extract-chain) with lo itself == x truncated
        if nh.op == Op::Extract && nh.a == lo {
            // hi part of x above x itself : not contiguous
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        if nh.op == Op::Ite && self.is_const(lo) && self.info[hi as usize].leaves > 1 {
            let x = self.concat(nh.b, lo);
            let y = self.concat(nh.c, lo);
            return self.ite(nh.a, x, y);
        }
        if nl.op == Op::Ite && self.is_const(hi) && self.info[lo as usize].leaves > 1 {
            let x = self.concat(hi, nl.b);
            let y = self.concat(hi, nl.c);
            return self.ite(nl.a, x, y);
        }
        // concat(concat(a,b),c) -> right assoc for canonical form
        if nh.op == Op::Concat {
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        self.mk(Op::Concat, w, hi, lo, 0)
    }
    pub fn bool_to(&mut self, b: E, w: u8) -> E {
        self.zext(b, w)
    }

    // ---------- floats ----------
    fn fold_f2(op: Op, w: u8, x: u128, y: u128) -> u128 {
        if w == 32 {
            let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            match op {
                Op::FAdd => (a + b).to_bits() as u128,
                Op::FSub => (a - b).to_bits() as u128,
                Op::FMul => (a * b).to_bits() as u128,
                Op::FDiv => (a / b).to_bits() as u128,
                Op::FRem => (a % b).to_bits() as u128,
                Op::FLt => (a < b) as u128,
                Op::FLe => (a <= b) as u128,
                Op::FEq => (a == b) as u128,
                _ => unreachable!(),
            }
        } else {
            let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
            match op {
                Op::FAdd => (a + b).to_bits() as u128,
                Op::FSub => (a - b).to_bits() as u128,
                Op::FMul => (a * b).to_bits() as u128,
                Op::FDiv => (a / b).to_bits() as u128,
                Op::FRem => (a % b).to_bits() as u128,
                Op::FLt => (a < b) as u128,
                Op::FLe => (a <= b) as u128,
                Op::FEq => (a == b) as u128,
                _ => unreachable!(),
            }
        }
    }
    fn fold_f1(op: Op, w: u8, p: u32, rw: u8, x: u128) -> u128 {
        match op {
            Op::FSqrt => {
                if w == 32 {
                    f32::from_bits(x as u32).sqrt().to_bits() as u128
                } else {
                    f64::from_bits(x as u64).sqrt().to_bits() as u128
                }
            }
            Op::FRnd => {
                if w == 32 {
                    let v = f32::from_bits(x as u32);
                    (match p {
                        0 => v.floor(),
                        1 => v.ceil(),
                        2 => v.trunc(),
                        3 => v.round_ties_even(),
                        _ => v.round(),
                    })
                    .to_bits() as u128
                } else {
                    let v = f64::from_bits(x as u64);
                    (match p {
                        0 => v.floor(),
                        1 => v.ceil(),
                        2 => v.trunc(),
                        3 => v.round_ties_even(),
                        _ => v.round(),
                    })
                    .to_bits() as u128
                }
            }
            Op::FNan => {
                if w == 32 {
                    f32::from_bits(x as u32).is_nan() as u128
                } else {
                    f64::from_bits(x as u64).is_nan() as u128
                }
            }
            Op::SToF => {
                let s = sext(x, w);
                if rw == 32 {
                    (s as f32).to_bits() as u128
                } else {
                    (s as f64).to_bits() as u128
                }
            }
            Op::UToF => {
                if rw == 32 {
                    (x as f32).to_bits() as u128
                } else {
                    (x as f64).to_bits() as u128
                }
            }
            Op::FToS | Op::FToU => {
                let v = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                if v.is_nan() {
                    return 0;
                }
                let t = v.trunc();
                if op == Op::FToS {
                    let mx = (mask(rw) >> 1) as i128;
                    let mn = -mx - 1;
                    let r = t as i128;
                    (r.clamp(mn, mx) as u128) & mask(rw)
                } else {
                    let r = t as u128;
                    r.min(mask(rw))
                }
            }
            Op::FCvt => {
                if w == 32 {
                    (f32::from_bits(x as u32) as f64).to_bits() as u128
                } else {
                    (f64::from_bits(x as u64) as f32).to_bits() as u128
                }
            }
            _ => unreachable!(),
        }
    }
    /// exact integer representation of a float term: value = int64 * 2^-scale
    pub fn fixed_of(&mut self, e: E, w: u8) -> Option<(E, i32)> {
        if let Some(r) = self.fixed.get(&e) {
            return Some(*r);
        }
        if let Some(v) = self.cv(e) {
            let f = if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
            if !f.is_finite() || f.abs() > (1u64 << 40) as f64 {
                return None;
            }
            let mut s = 0;
            let mut g = f;
            while g.fract() != 0.0 && s < 16 {
                g *= 2.0;
                s += 1;
            }
            if g.fract() != 0.0 || g.abs() > (1u64 << 45) as f64 {
                return None;
            }
            let i = self.k(64, (g as i64) as u64 as u128);
            self.fixed.insert(e, (i, s));
            return Some((i, s));
        }
        None
    }
    fn align_scale(&mut self, ai: E, asc: i32, bi: E, bsc: i32) -> Option<(E, E, i32)> {
        let s = asc.max(bsc);
        let x = self.fx_shl(ai, s - asc)?;
        let y = self.fx_shl(bi, s - bsc)?;
        Some((x, y, s))
    }
    fn fx_shl(&mut self, a: E, k: i32) -> Option<E> {
        if k == 0 {
            return Some(a);
        }
        let r = self.srange(a)?;
        if k > 40 || r.0 < -(1i128 << (62 - k)) || r.1 > (1i128 << (62 - k)) {
            return None;
        }
        let kk = self.k(64, 1u128 << k);
        Some(self.bin(Op::Mul, a, kk))
    }
    fn fx_fits(&self, i: E, w: u8) -> bool {
        // any integer with magnitude <= 2^24 (2^53) is exactly representable (scale is small)
        let lim = if w == 32 { 1i128 << 24 } else { 1i128 << 53 };
        match self.srange(i) {
            Some((l, h)) => l >= -lim && h <= lim,
            None => false,
        }
    }
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let iscmp = matches!(op, Op::FLt | Op::FLe | Op::FEq);
        let rw = if iscmp { 1 } else { w };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = Self::fold_f2(op, w, x, y);
            return self.k(rw, v);
        }
        if let (Some((ai, asc)), Some((bi, bsc))) = (self.fixed_of(a, w), self.fixed_of(b, w)) {
            match op {
                Op::FLt | Op::FLe | Op::FEq => {
                    if let Some((x, y, _)) = self.align_scale(ai, asc, bi, bsc) {
                        let o = match op {
                            Op::FLt => Op::Slt,
                            Op::FLe => Op::Sle,
                            _ => Op::Eq,
                        };
                        return self.bin(o, x, y);
                    }
                }
                Op::FAdd | Op::FSub => {
                    if let Some((x, y, s)) = self.align_scale(ai, asc, bi, bsc) {
                        let r = self.bin(if op == Op::FAdd { Op::Add } else { Op::Sub }, x, y);
                        if self.fx_fits(r, w) {
                            let node = self.mk(op, rw, a, b, 0);
                            self.fixed.insert(node, (r, s));
                            return node;
                        }
                    }
                }
                Op::FMul => {
                    if asc + bsc <= 24 {
                        if let (Some(ra), Some(rb)) = (self.srange(ai), self.srange(bi)) {
                            let lim = 1i128 << 31;
                            if ra.0 > -lim && ra.1 < lim && rb.0 > -lim && rb.1 < lim {
                                let r = self.bin(Op::Mul, ai, bi);
                                if self.fx_fits(r, w) {
                                    let node = self.mk(op, rw, a, b, 0);
                                    let sc = if self.cv(r) == Some(0) { 0 } else { asc + bsc };
                                    self.fixed.insert(node, (r, sc));
                                    return node;
                                }
                            }
                        }
                    }
                }
                Op::FDiv => {
                    // division by a power of two constant
                    if let Some(v) = self.cv(bi) {
                        if v != 0 && v < (1 << 20) && v.is_power_of_two() {
                            let k = v.trailing_zeros() as i32 - bsc;
                            let s = asc + k;
                            if s <= 24 {
                                let (i, s) = if s < 0 { (self.fx_shl(ai, -s), 0) } else { (Some(ai), s) };
                                if let Some(i) = i {
                                    if self.fx_fits(i, w) {
                                        let node = self.mk(op, rw, a, b, 0);
                                        self.fixed.insert(node, (i, s));
                                        return node;
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // zero times any finite number is zero (of either sign)
        if op == Op::FMul {
            for (x, y) in [(a, b), (b, a)] {
                let fin = match self.cv(y) {
                    Some(v) if w == 32 => f32::from_bits(v as u32).is_finite(),
                    Some(v) => f64::from_bits(v as u64).is_finite(),
                    None => false,
                };
                if fin {
                    if let Some((i, _)) = self.fixed_of(x, w) {
                        if self.cv(i) == Some(0) {
                            let node = self.mk(op, rw, a, b, 0);
                            self.fixed.insert(node, (i, 0));
                            return node;
                        }
                    }
                }
            }
        }
        // lift over ite trees of constants
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.leaves > 0 && ib.leaves > 0 && ia.leaves * ib.leaves <= 64 {
            let key = (op as u8, 1, a, b);
            if let Some(r) = self.lift_memo.get(&key) {
                return *r;
            }
            let (na, nb) = (self.n(a), self.n(b));
            let r = if ia.leaves > 1 {
                let x = self.fbin(op, na.b, b);
                let y = self.fbin(op, na.c, b);
                self.ite(na.a, x, y)
            } else {
                let x = self.fbin(op, a, nb.b);
                let y = self.fbin(op, a, nb.c);
                self.ite(nb.a, x, y)
            };
            self.lift_memo.insert(key, r);
            return r;
        }
        if iscmp && a == b && op == Op::FLt {
            return self.fls;
        }
        self.mk(op, rw, a, b, 0)
    }
    pub fn funa(&mut self, op: Op, a: E, p: u32, rw: u8) -> E {
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            let v = Self::fold_f1(op, w, p, rw, x);
            return self.k(rw, v);
        }
        match op {
            Op::SToF | Op::UToF => {
                let i64e = if w < 64 || (w == 64) {
                    if op == Op::SToF {
                        Some(self.sext(a, 64))
                    } else if w < 64 || self.info[a as usize].hi < (1u128 << 62) {
                        Some(self.zext(a, 64))
                    } else {
                        None
                    }
                } else {
                    None
                };
                if let Some(i) = i64e {
                    if self.fx_fits(i, rw) {
                        let node = self.mk(op, rw, a, p, 0);
                        self.fixed.insert(node, (i, 0));
                        return node;
                    }
                }
            }
            Op::FToS | Op::FToU => {
                if let Some((i, s)) = self.fixed_of(a, w) {
                    // trunc toward zero of i / 2^s
                    let q = if s == 0 {
                        i
                    } else {
                        let k = self.k(64, 1u128 << s);
                        self.bin(Op::SDiv, i, k)
                    };
                    let r = self.srange(i).unwrap_or((-(1i128 << 62), 1i128 << 62));
                    let (ql, qh) = (r.0 / (1i128 << s), r.1 / (1i128 << s));
                    let (mn, mx) = if op == Op::FToS {
                        let m = (mask(rw) >> 1) as i128;
                        (-m - 1, m)
                    } else {
                        (0, mask(rw) as i128)
                    };
                    let mut v = q;
                    if ql < mn {
                        let k = self.k(64, mn as u128);
                        let c = self.bin(Op::Slt, v, k);
                        v = self.ite(c, k, v);
                    }
                    if qh > mx {
                        let k = self.k(64, mx as u128);
                        let c = self.bin(Op::Slt, k, v);
                        v = self.ite(c, k, v);
                    }
                    return if rw <= 64 { self.extract(v, 0, rw) } else { self.sext(v, rw) };
                }
            }
            Op::FRnd => {
                if let Some((i, s)) = self.fixed_of(a, w) {
                    if p <= 2 {
                        let r = if s == 0 {
                            i
                        } else {
                            let ks = self.k(64, s as u128);
                            match p {
                                0 => self.bin(Op::AShr, i, ks),
                                1 => {
                                    let k = self.k(64, (1u128 << s) - 1);
                                    let t = self.bin(Op::Add, i, k);
                                    self.bin(Op::AShr, t, ks)
                                }
                                _ => {
                                    let k = self.k(64, 1u128 << s);
                                    self.bin(Op::SDiv, i, k)
                                }
                            }
                        };
                        let node = self.mk(op, rw, a, p, 0);
                        self.fixed.insert(node, (r, 0));
                        return node;
                    }
                }
            }
            Op::FNan => {
                if self.fixed_of(a, w).is_some() {
                    return self.fls;
                }
            }
            Op::FCvt => {
                if let Some(f) = self.fixed_of(a, w) {
                    if self.fx_fits(f.0, rw) {
                        let node = self.mk(op, rw, a, p, 0);
                        self.fixed.insert(node, f);
                        return node;
                    }
                }
            }
            _ => {}
        }
        let tag = 10 + op as u8;
        if let Some(r) = self.lift1(tag, a, p | ((rw as u32) << 16), &mut |c, x| c.funa(op, x, p, rw)) {
            return r;
        }
        self.mk(op, rw, a, p, 0)
    }
    pub fn fneg(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.k(w, 1u128 << (w - 1));
        let r = self.bin(Op::Xor, a, k);
        if !self.is_const(r) && !self.fixed.contains_key(&r) {
            if let Some((i, s)) = self.fixed_of(a, w) {
                let z = self.k(64, 0);
                let ni = self.bin(Op::Sub, z, i);
                self.fixed.insert(r, (ni, s));
            }
        }
        r
    }
    pub fn fabs(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.k(w, (1u128 << (w - 1)) - 1);
        let r = self.bin(Op::And, a, k);
        if !self.is_const(r) && !self.fixed.contains_key(&r) {
            if let Some((i, s)) = self.fixed_of(a, w) {
                let z = self.k(64, 0);
                let ni = self.bin(Op::Sub, z, i);
                let c = self.bin(Op::Slt, i, z);
                let v = self.ite(c, ni, i);
                self.fixed.insert(r, (v, s));
            }
        }
        r
    }
    pub fn fma(&mut self, a: E, b: E, c: E) -> E {
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) {
            let w = self.w(a);
            let v = if w == 32 {
                f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128
            } else {
                f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128
            };
            return self.k(w, v);
        }
        let w = self.w(a);
        self.mk(Op::FMa, w, a, b, c)
    }

    // ---------- evaluation ----------
    pub fn new_eval(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.eval_gen.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 2 + 64;
            self.eval_gen.resize(n, 0);
            self.eval_val.resize(n, 0);
        }
    }
    /// evaluate within the current generation (call new_eval first for a new model)
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if self.eval_gen.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 2 + 64;
            self.eval_gen.resize(n, 0);
            self.eval_val.resize(n, 0);
        }
        // iterative post-order
        let mut stack: Vec<E> = vec![e];
        while let Some(&x) = stack.last() {
            if self.eval_gen[x as usize] == self.gen {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            macro_rules! need {
                ($($y:expr),*) => {{
                    let mut missing = false;
                    $( if self.eval_gen[$y as usize] != self.gen { stack.push($y); missing = true; } )*
                    if missing { continue; }
                }};
            }
            let ev = |s: &Self, y: u32| s.eval_val[y as usize];
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Sym => m.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
                Op::Ite => {
                    need!(n.a);
                    let t = if ev(self, n.a) != 0 { n.b } else { n.c };
                    need!(t);
                    ev(self, t)
                }
                Op::Not => {
                    need!(n.a);
                    !ev(self, n.a) & mask(n.w)
                }
                Op::ZExt => {
                    need!(n.a);
                    ev(self, n.a)
                }
                Op::SExt => {
                    need!(n.a);
                    (sext(ev(self, n.a), self.nodes[n.a as usize].w) as u128) & mask(n.w)
                }
                Op::Extract => {
                    need!(n.a);
                    (ev(self, n.a) >> n.b) & mask(n.w)
                }
                Op::Concat => {
                    need!(n.a, n.b);
                    (ev(self, n.a) << self.nodes[n.b as usize].w) | ev(self, n.b)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FLt | Op::FLe | Op::FEq => {
                    need!(n.a, n.b);
                    Self::fold_f2(n.op, self.nodes[n.a as usize].w, ev(self, n.a), ev(self, n.b))
                }
                Op::FSqrt | Op::FRnd | Op::FNan | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FCvt => {
                    need!(n.a);
                    Self::fold_f1(n.op, self.nodes[n.a as usize].w, n.b, n.w, ev(self, n.a))
                }
                Op::FMa => {
                    need!(n.a, n.b, n.c);
                    let (x, y, z) = (ev(self, n.a), ev(self, n.b), ev(self, n.c));
                    if n.w == 32 {
                        f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128
                    } else {
                        f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128
                    }
                }
                op => {
                    need!(n.a, n.b);
                    let w = self.nodes[n.a as usize].w;
                    self.fold2(op, w, ev(self, n.a), ev(self, n.b)).unwrap()
                }
            };
            self.eval_gen[x as usize] = self.gen;
            self.eval_val[x as usize] = v;
            stack.pop();
        }
        self.eval_val[e as usize]
    }
    pub fn children(n: &Node) -> ([u32; 3], usize) {
        match n.op {
            Op::Const | Op::Sym => ([0; 3], 0),
            Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::FSqrt | Op::FRnd | Op::FNan | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FCvt => ([n.a, 0, 0], 1),
            Op::Ite | Op::FMa => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    /// set of symbols in a term (sorted)
    pub fn syms_of(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(r) = self.symset.get(&e) {
            return r.clone();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.symset.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            if n.op == Op::Sym {
                self.symset.insert(x, std::rc::Rc::new(vec![n.a]));
                stack.pop();
                continue;
            }
            let (ch, k) = Self::children(&n);
            let mut miss = false;
            for y in &ch[..k] {
                if !self.symset.contains_key(y) {
                    stack.push(*y);
                    miss = true;
                }
            }
            if miss {
                continue;
            }
            let r = match k {
                0 => std::rc::Rc::new(vec![]),
                1 => self.symset[&ch[0]].clone(),
                _ => {
                    let first = self.symset[&ch[0]].clone();
                    let mut v: Vec<u32> = (*first).clone();
                    let mut same = true;
                    for y in &ch[1..k] {
                        let o = &self.symset[y];
                        if std::rc::Rc::ptr_eq(o, &first) {
                            continue;
                        }
                        if !o.is_empty() {
                            same = false;
                            v.extend_from_slice(o);
                        }
                    }
                    if same {
                        first
                    } else {
                        v.sort_unstable();
                        v.dedup();
                        std::rc::Rc::new(v)
                    }
                }
            };
            self.symset.insert(x, r);
            stack.pop();
        }
        self.symset[&e].clone()
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Sym => self.syms[n.a as usize].1.clone(),
            _ => {
                if d == 0 {
                    return format!("#{}", e);
                }
                let (ch, k) = Self::children(&n);
                let mut s = format!("({:?}{}", n.op, n.w);
                for x in &ch[..k] {
                    s.push(' ');
                    s.push_str(&self.show(*x, d - 1));
                }
                s.push(')');
                s
            }
        }
    }
}
