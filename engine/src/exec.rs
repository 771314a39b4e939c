//! Symbolic execution of LLVM IR with state merging.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP: u64 = 0x4000_0000_0000;
pub const STACK: u64 = 0x6000_0000_0000;
const PTR_LO: u128 = FN_BASE as u128;
const PTR_HI: u128 = 0x7000_0000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub iters: Vec<(u32, u32)>,
    pub allocas: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Input {
    Sym(E),
    Case(u32),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Vec<Input>,
    pub obs: Vec<E>,
    pub cases: Vec<u32>,
    pub steps: u64,
    pub policy: u8,
    pub errno: bool,
    /// just split to execute one instruction; must not join others before that
    pub pin: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<u128>,
    pub cases: Vec<u32>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub inputs: Vec<u128>,
    pub obs: Vec<u64>,
}

pub enum Stop {
    /// execute again after splitting on this condition
    Split(E),
    Dead,
    Fatal(String),
}
type X<T> = Result<T, Stop>;

enum Flow {
    Next,
    Jump,
    /// the state returned from a function; a merge candidate
    Ret,
    Done,
    Fork(Vec<State>),
}

enum Addr {
    One(u64),
    Many(Rc<Vec<u128>>),
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_refused: u64,
    pub paths: u64,
    pub killed: u64,
    pub max_queue: usize,
    pub cases: u64,
    pub sym_loads: u64,
    pub sym_stores: u64,
    pub joins: u64,
}

pub struct Exec {
    pub m: Module,
    pub cx: Ctx,
    pub s: Solver,
    pub st: Stats,
    gobjs: HashMap<u64, Rc<Obj>>,
    gaddr: Vec<(u64, u64, usize)>,
    queue: BTreeMap<Vec<u32>, Vec<State>>,
    insym: HashMap<(usize, u64), E>,
    inassume: HashMap<E, E>,
    vals: HashMap<E, Option<Rc<Vec<u128>>>, BuildFx>,
    live: HashMap<(u32, u32, u32), Rc<Vec<u32>>>,
    pub violations: Vec<Violation>,
    seen_viol: HashSet<(String, u64, String)>,
    pub viol_count: HashMap<(String, u64), u64>,
    /// when set, only these assertions are decided
    pub only_checks: Option<std::collections::BTreeSet<u64>>,
    pub checks: BTreeMap<u64, (u64, u64)>, // id -> evaluated, needed solver
    pub covers: BTreeMap<u64, Option<Vec<u128>>>,
    pub witnesses: Vec<Witness>,
    pub want_witnesses: usize,
    pub incomplete: Vec<String>,
    pub fns_entered: BTreeSet<u32>,
    pub dbg_seen: HashSet<u32>,
    pub start: Instant,
    pub time_limit: f64,
    pub step_limit: u64,
    pub path_step_limit: u64,
    pub shard: (u32, u32),
    pub trace: bool,
    pub prof: HashMap<(u32, u32), u64>,
    pub force_inputs: Option<Vec<u128>>,
    pub stop_after: usize,
    builtin: HashMap<String, u16>,
    memo_call: HashMap<u64, CallKind>,
}

#[derive(Clone)]
enum CallKind {
    Body(u32),
    Builtin(String),
    Panic(String),
}

fn zero_val(cx: &mut Ctx, t: &Ty) -> Val {
    match t {
        Ty::Struct(fs, _) => Val::Agg(Rc::new(fs.iter().map(|f| zero_val(cx, f)).collect())),
        Ty::Arr(n, e) => {
            let z = zero_val(cx, e);
            Val::Agg(Rc::new(vec![z; *n as usize]))
        }
        Ty::Vec(n, e) => {
            let z = zero_val(cx, e);
            Val::Agg(Rc::new(vec![z; *n as usize]))
        }
        Ty::Void | Ty::Meta => Val::E(cx.fls),
        _ => Val::E(cx.k(t.width(), 0)),
    }
}

fn store_bytes(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => (*w as u64 + 7) / 8,
        Ty::Ptr | Ty::F64 => 8,
        Ty::F32 => 4,
        _ => t.size(),
    }
}

fn is_panic_fn(n: &str) -> bool {
    n.contains("9panicking")
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("16slice_index_fail")
        || n.contains("17capacity_overflow")
        || n.contains("7raw_vec12handle_error")
        || n.contains("18handle_alloc_error")
        || n.contains("13assert_failed")
        || n.contains("slice_error_fail")
        || n.contains("_fail") && n.contains("5slice5index")
        || n.contains("len_mismatch_fail")
        || n == "abort"
        || n.contains("panic_already_borrowed")
        || n.contains("panic_already_mutably_borrowed")
}

impl Exec {
    pub fn new(m: Module, s: Solver) -> Self {
        let mut cx = Ctx::new();
        let mut gaddr: Vec<(u64, u64, usize)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, g.size, i)).collect();
        gaddr.sort();
        let _ = cx.k(8, 0);
        Exec {
            m,
            cx,
            s,
            st: Default::default(),
            gobjs: Default::default(),
            gaddr,
            queue: Default::default(),
            insym: Default::default(),
            inassume: Default::default(),
            vals: Default::default(),
            live: Default::default(),
            violations: vec![],
            seen_viol: Default::default(),
            viol_count: Default::default(),
            only_checks: None,
            checks: Default::default(),
            covers: Default::default(),
            witnesses: vec![],
            want_witnesses: 3,
            incomplete: vec![],
            fns_entered: Default::default(),
            dbg_seen: Default::default(),
            start: Instant::now(),
            time_limit: 800.0,
            step_limit: u64::MAX,
            path_step_limit: 3_000_000,
            shard: (0, 1),
            trace: std::env::var("RV_TRACE").is_ok(),
            prof: Default::default(),
            force_inputs: None,
            stop_after: 40,
            builtin: Default::default(),
            memo_call: Default::default(),
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fi = *self.m.fmap.get(entry).ok_or(format!("no function {}", entry))?;
        let f = self.m.func(fi, &mut self.cx)?;
        self.start = Instant::now();
        let z = Val::E(self.cx.fls);
        let fr = Frame { fi: fi as u32, blk: 0, ip: 0, regs: vec![z; f.nregs as usize], iters: vec![], allocas: vec![], f };
        self.fns_entered.insert(fi as u32);
        let st = State {
            frames: vec![Rc::new(fr)],
            mem: Mem::default(),
            pc: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            cases: vec![],
            steps: 0,
            policy: 2,
            errno: false,
            pin: false,
        };
        self.drive(st)?;
        while let Some(mut ent) = self.queue.first_entry() {
            let st = ent.get_mut().pop().unwrap();
            if ent.get().is_empty() {
                ent.remove();
            }
            self.drive(st)?;
            if self.violations.len() >= self.stop_after {
                self.incomplete.push("stopped after many violations".into());
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.time_limit {
                self.incomplete.push(format!("time limit {}s", self.time_limit));
                break;
            }
            if self.st.steps > self.step_limit {
                self.incomplete.push("step limit".into());
                break;
            }
        }
        Ok(())
    }

    fn key(&self, st: &State) -> Vec<u32> {
        let mut k = Vec::with_capacity(8 + st.frames.len() * 8);
        for c in &st.cases {
            k.push(*c + 1);
        }
        k.push(0);
        for fr in &st.frames {
            k.push(fr.fi);
            for (h, n) in &fr.iters {
                k.push(fr.f.blocks[*h as usize].order);
                k.push(*n);
            }
            k.push(fr.f.blocks[fr.blk as usize].order);
            k.push(fr.ip);
        }
        k
    }

    fn enqueue(&mut self, k: Vec<u32>, st: State) {
        if let Some(v) = self.queue.get_mut(&k) {
            let mut v = std::mem::take(v);
            let mut cur = st;
            let mut i = 0;
            while i < v.len() {
                let m = if cur.pin || v[i].pin { None } else { self.merge(&v[i], &cur) };
                if let Some(m) = m {
                    v.swap_remove(i);
                    cur = m;
                    self.st.merges += 1;
                    i = 0;
                } else {
                    self.st.merge_refused += 1;
                    i += 1;
                }
            }
            v.push(cur);
            self.queue.insert(k, v);
        } else {
            self.queue.insert(k, vec![st]);
        }
        let n: usize = self.queue.len();
        if n > self.st.max_queue {
            self.st.max_queue = n;
        }
    }

    /// run one state until it ends, forks or reaches a point where others may join it
    fn drive(&mut self, mut st: State) -> Result<(), String> {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 && self.start.elapsed().as_secs_f64() > self.time_limit {
                self.incomplete.push(format!("time limit {}s", self.time_limit));
                return Ok(());
            }
            if st.steps > self.path_step_limit {
                let loc = self.where_(&st);
                self.report(&st, "steps", 0, "step limit of a single path exceeded (candidate non-termination)".into(), loc);
                return Ok(());
            }
            st.pin = false;
            match self.step(&mut st) {
                Ok(Flow::Next) => {}
                Ok(Flow::Jump) => {
                    let fr = st.frames.last().unwrap();
                    if fr.f.blocks[fr.blk as usize].npreds > 1 && !self.queue.is_empty() {
                        let k = self.key(&st);
                        let first = self.queue.first_key_value().unwrap().0;
                        if *first <= k {
                            self.enqueue(k, st);
                            return Ok(());
                        }
                    }
                }
                Ok(Flow::Ret) => {
                    if !self.queue.is_empty() {
                        let k = self.key(&st);
                        let first = self.queue.first_key_value().unwrap().0;
                        if *first <= k {
                            self.enqueue(k, st);
                            return Ok(());
                        }
                    }
                }
                Ok(Flow::Done) => {
                    self.finish(st);
                    return Ok(());
                }
                Ok(Flow::Fork(v)) => {
                    for s in v {
                        let k = self.key(&s);
                        self.enqueue(k, s);
                    }
                    return Ok(());
                }
                Err(Stop::Dead) => {
                    self.st.killed += 1;
                    return Ok(());
                }
                Err(Stop::Split(c)) => {
                    let v = self.split(st, c);
                    for mut s in v {
                        s.pin = true;
                        let k = self.key(&s);
                        self.enqueue(k, s);
                    }
                    return Ok(());
                }
                Err(Stop::Fatal(e)) => {
                    let w = self.where_(&st);
                    return Err(format!("{} at {} inputs={:?}", e, w, self.input_values(&st, &st.model.clone())));
                }
            }
        }
    }

    fn finish(&mut self, st: State) {
        self.st.paths += 1;
        if self.witnesses.len() < self.want_witnesses {
            let w = self.witness(&st);
            self.witnesses.push(w);
        } else {
            // reservoir without randomness: keep the first two, rotate the rest
            let n = self.want_witnesses;
            if n > 2 && self.st.paths.is_power_of_two() {
                let w = self.witness(&st);
                let i = 2 + (self.st.paths.trailing_zeros() as usize) % (n - 2);
                self.witnesses[i] = w;
            }
        }
    }
    fn witness(&mut self, st: &State) -> Witness {
        let m = st.model.clone();
        let inputs = self.input_values(st, &m);
        self.cx.new_eval();
        let obs = st.obs.iter().map(|e| self.cx.eval(*e, &m) as u64).collect();
        Witness { inputs, obs }
    }

    pub fn input_values(&mut self, st: &State, m: &Model) -> Vec<u128> {
        self.cx.new_eval();
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Sym(e) => self.cx.eval(*e, m),
                Input::Case(c) => *c as u128,
            })
            .collect()
    }

    fn where_(&self, st: &State) -> String {
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.blk as usize];
            if let Some(i) = b.insts.get(fr.ip as usize) {
                let c = self.m.dbg_chain(i.dbg);
                if let Some((f, l, n)) = c.iter().find(|(f, _, _)| !f.contains("/rustc/") && !f.contains("library/") && !f.is_empty()) {
                    return format!("{}:{} ({})", f, l, n);
                }
            }
        }
        "?".into()
    }
    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.blk as usize];
            if let Some(i) = b.insts.get(fr.ip as usize) {
                for (f, l, n) in self.m.dbg_chain(i.dbg) {
                    out.push(format!("{}:{} {}", f, l, n));
                }
            }
        }
        out.truncate(24);
        out
    }

    fn report(&mut self, st: &State, kind: &str, id: u64, msg: String, loc: String) {
        let m = st.model.clone();
        self.report_m(st, &m, kind, id, msg, loc);
    }
    fn report_m(&mut self, st: &State, m: &Model, kind: &str, id: u64, msg: String, loc: String) {
        *self.viol_count.entry((kind.to_string(), id)).or_insert(0) += 1;
        if !self.seen_viol.insert((kind.to_string(), id, loc.clone())) {
            return;
        }
        let inputs = self.input_values(st, m);
        let stack = self.stack_of(st);
        self.violations.push(Violation { kind: kind.into(), id, msg, loc, inputs, cases: st.cases.clone(), stack });
    }

    fn model_with(&self, m: &Model, asg: &[(u32, u128)]) -> Rc<Model> {
        let mut r = m.clone();
        for (s, v) in asg {
            if r.len() <= *s as usize {
                r.resize(*s as usize + 1, 0);
            }
            r[*s as usize] = *v;
        }
        Rc::new(r)
    }

    fn ev(&mut self, m: &Model, e: E) -> u128 {
        self.cx.new_eval();
        self.cx.eval(e, m)
    }

    /// add a condition to the path; false if infeasible
    fn constrain(&mut self, st: &mut State, c: E) -> bool {
        if let Some(v) = self.cx.cv(c) {
            return v != 0;
        }
        let m = st.model.clone();
        if self.ev(&m, c) == 0 {
            match self.s.check(&mut self.cx, &st.pc, c) {
                (Sat::Sat, Some(a)) => st.model = self.model_with(&st.model, &a),
                (Sat::Unknown, _) => {
                    self.incomplete.push("solver gave no answer".into());
                    return false;
                }
                _ => return false,
            }
        }
        self.push_pc(st, c);
        true
    }
    fn push_pc(&mut self, st: &mut State, c: E) {
        if self.cx.is_const(c) {
            return;
        }
        // split conjunctions
        let n = self.cx.n(c);
        if n.op == Op::And && n.w == 1 {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn split(&mut self, st: State, c: E) -> Vec<State> {
        let nc = self.cx.not(c);
        let mut v = vec![];
        let mut a = st.clone();
        let mut b = st;
        if self.constrain(&mut a, c) {
            v.push(a);
        }
        if self.constrain(&mut b, nc) {
            v.push(b);
        }
        self.st.forks += 1;
        v
    }
    /// can `c` hold on this path (without changing it)?
    fn feasible(&mut self, st: &State, c: E) -> X<Option<Rc<Model>>> {
        if let Some(v) = self.cx.cv(c) {
            return Ok(if v != 0 { Some(st.model.clone()) } else { None });
        }
        let m = st.model.clone();
        if self.ev(&m, c) != 0 {
            return Ok(Some(m));
        }
        match self.s.check(&mut self.cx, &st.pc, c) {
            (Sat::Sat, Some(a)) => Ok(Some(self.model_with(&st.model, &a))),
            (Sat::Unknown, _) => {
                self.incomplete.push(format!("solver gave no answer ({})", self.where_(st)));
                Ok(None)
            }
            _ => Ok(None),
        }
    }

    /// the concrete value of a term, splitting the path if it has several
    fn concretize(&mut self, st: &State, e: E) -> X<u128> {
        if let Some(v) = self.cx.cv(e) {
            return Ok(v);
        }
        let m = st.model.clone();
        let v = self.ev(&m, e);
        let w = self.cx.w(e);
        let k = self.cx.k(w, v);
        let eq = self.cx.eq(e, k);
        let ne = self.cx.not(eq);
        match self.feasible(st, ne)? {
            None => Ok(v),
            Some(_) => Err(Stop::Split(eq)),
        }
    }

    fn values(&mut self, e: E, cap: usize, depth: u32) -> Option<Rc<Vec<u128>>> {
        if let Some(v) = self.cx.cv(e) {
            return Some(Rc::new(vec![v]));
        }
        if let Some(r) = self.vals.get(&e) {
            return r.clone();
        }
        let n = self.cx.n(e);
        let inf = self.cx.info[e as usize];
        let small = inf.hi - inf.lo;
        let mut r: Option<Rc<Vec<u128>>> = None;
        if small < 4 || n.op == Op::Sym {
            if small < cap as u128 {
                r = Some(Rc::new((inf.lo..=inf.hi).collect()));
            }
        } else if depth < 24 {
            let mut out: BTreeSet<u128> = Default::default();
            let ok = match n.op {
                Op::Ite => match (self.values(n.b, cap, depth + 1), self.values(n.c, cap, depth + 1)) {
                    (Some(a), Some(b)) => {
                        out.extend(a.iter());
                        out.extend(b.iter());
                        true
                    }
                    _ => false,
                },
                Op::ZExt => match self.values(n.a, cap, depth + 1) {
                    Some(a) => {
                        out.extend(a.iter());
                        true
                    }
                    _ => false,
                },
                Op::SExt => match self.values(n.a, cap, depth + 1) {
                    Some(a) => {
                        let w0 = self.cx.w(n.a);
                        out.extend(a.iter().map(|x| (sext(*x, w0) as u128) & mask(n.w)));
                        true
                    }
                    _ => false,
                },
                Op::Extract => match self.values(n.a, cap, depth + 1) {
                    Some(a) => {
                        out.extend(a.iter().map(|x| (x >> n.b) & mask(n.w)));
                        true
                    }
                    _ => false,
                },
                Op::Concat => match (self.values(n.a, cap, depth + 1), self.values(n.b, cap, depth + 1)) {
                    (Some(a), Some(b)) if a.len() * b.len() <= cap => {
                        let wb = self.cx.w(n.b);
                        for x in a.iter() {
                            for y in b.iter() {
                                out.insert((x << wb) | y);
                            }
                        }
                        true
                    }
                    _ => false,
                },
                Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::And | Op::Or | Op::Xor | Op::UDiv | Op::URem | Op::LShr => match (self.values(n.a, cap, depth + 1), self.values(n.b, cap, depth + 1)) {
                    (Some(a), Some(b)) if a.len() * b.len() <= 4 * cap => {
                        let w = n.w;
                        for x in a.iter() {
                            for y in b.iter() {
                                let (x, y) = (*x, *y);
                                let v = match n.op {
                                    Op::Add => x.wrapping_add(y),
                                    Op::Sub => x.wrapping_sub(y),
                                    Op::Mul => x.wrapping_mul(y),
                                    Op::And => x & y,
                                    Op::Or => x | y,
                                    Op::Xor => x ^ y,
                                    Op::Shl => {
                                        if y >= w as u128 {
                                            0
                                        } else {
                                            x << y
                                        }
                                    }
                                    Op::LShr => {
                                        if y >= w as u128 {
                                            0
                                        } else {
                                            x >> y
                                        }
                                    }
                                    Op::UDiv => {
                                        if y == 0 {
                                            mask(w)
                                        } else {
                                            x / y
                                        }
                                    }
                                    _ => {
                                        if y == 0 {
                                            x
                                        } else {
                                            x % y
                                        }
                                    }
                                } & mask(w);
                                if v >= inf.lo && v <= inf.hi {
                                    out.insert(v);
                                }
                            }
                        }
                        true
                    }
                    _ => false,
                },
                _ => false,
            };
            if ok && out.len() <= cap {
                r = Some(Rc::new(out.into_iter().collect()));
            } else if small < cap as u128 / 4 {
                r = Some(Rc::new((inf.lo..=inf.hi).collect()));
            }
        }
        self.vals.insert(e, r.clone());
        r
    }

    fn gobj(&mut self, addr: u64) -> X<Option<Rc<Obj>>> {
        let i = self.gaddr.partition_point(|x| x.0 <= addr);
        if i == 0 {
            return Ok(None);
        }
        let (b, s, gi) = self.gaddr[i - 1];
        if addr > b + s {
            return Ok(None);
        }
        if let Some(o) = self.gobjs.get(&b) {
            return Ok(Some(o.clone()));
        }
        let is_const = self.m.globals[gi].is_const;
        let ty = self.m.globals[gi].ty.clone();
        let v = self.m.global_init(gi, &mut self.cx).map_err(|e| Stop::Fatal(format!("global {}: {}", self.m.globals[gi].name, e)))?;
        let z = self.cx.k(8, 0);
        let mut o = Obj::new(b, s, if is_const { Kind::Const } else { Kind::Global }, Cell { e: z, b: 0 });
        if let Some(v) = v {
            self.put(&mut o, 0, &ty, &v);
        }
        let o = Rc::new(o);
        self.gobjs.insert(b, o.clone());
        Ok(Some(o))
    }
    fn put(&mut self, o: &mut Obj, off: u64, t: &Ty, v: &Val) {
        match (t, v) {
            (Ty::Struct(fs, _), Val::Agg(vs)) => {
                for i in 0..fs.len() {
                    let (fo, ft) = t.field_off(i);
                    self.put(o, off + fo, &ft, &vs[i]);
                }
            }
            (Ty::Arr(_, et), Val::Agg(vs)) | (Ty::Vec(_, et), Val::Agg(vs)) => {
                let s = et.size();
                for (i, x) in vs.iter().enumerate() {
                    self.put(o, off + i as u64 * s, et, x);
                }
            }
            (_, Val::E(e)) => {
                let n = store_bytes(t);
                let e = if self.cx.w(*e) as u64 != n * 8 { self.cx.zext(*e, (n * 8) as u8) } else { *e };
                o.write(&self.cx, off, e, n);
            }
            _ => panic!("put"),
        }
    }

    fn obj(&mut self, st: &State, addr: u64) -> X<Option<Rc<Obj>>> {
        if let Some(o) = st.mem.find(addr) {
            return Ok(Some(o.clone()));
        }
        if addr >= GL_BASE && addr < HEAP {
            return self.gobj(addr);
        }
        Ok(None)
    }
    fn inb(&mut self, st: &State, addr: u64, n: u64) -> X<Option<Rc<Obj>>> {
        Ok(match self.obj(st, addr)? {
            Some(o) if addr + n <= o.base + o.size => Some(o),
            _ => None,
        })
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> X<&'a mut Obj> {
        if st.mem.find(addr).is_none() {
            match self.obj(st, addr)? {
                Some(o) => st.mem.insert(o),
                None => return Err(Stop::Fatal("obj_mut".into())),
            }
        }
        let b = st.mem.find(addr).unwrap().base;
        Ok(st.mem.get_mut(b))
    }

    fn resolve(&mut self, st: &State, a: E, n: u64) -> X<Addr> {
        if let Some(v) = self.cx.cv(a) {
            if self.inb(st, v as u64, n)?.is_none() {
                let loc = self.where_(st);
                self.report(st, "memory", 0, format!("invalid memory access of {} bytes at {:#x}", n, v), loc);
                return Err(Stop::Dead);
            }
            return Ok(Addr::One(v as u64));
        }
        let vs = match self.values(a, 1024, 0) {
            Some(v) => v,
            None => {
                // enumerate with the solver
                let mut out: Vec<u128> = vec![];
                let mut cond = self.cx.tru;
                let m = st.model.clone();
                let v0 = self.ev(&m, a);
                let mut cur = Some(v0);
                while let Some(v) = cur {
                    out.push(v);
                    if out.len() > 80 {
                        let k = self.cx.k(64, v0);
                        let eq = self.cx.eq(a, k);
                        return Err(Stop::Split(eq));
                    }
                    let k = self.cx.k(64, v);
                    let eq = self.cx.eq(a, k);
                    let ne = self.cx.not(eq);
                    cond = self.cx.and(cond, ne);
                    cur = match self.s.check(&mut self.cx, &st.pc, cond) {
                        (Sat::Sat, Some(asg)) => {
                            let m2 = self.model_with(&st.model, &asg);
                            Some(self.ev(&m2, a))
                        }
                        (Sat::Unknown, _) => {
                            self.incomplete.push("solver gave no answer (address)".into());
                            return Err(Stop::Dead);
                        }
                        _ => None,
                    };
                }
                out.sort_unstable();
                Rc::new(out)
            }
        };
        let mut good = vec![];
        let mut bad = vec![];
        for v in vs.iter() {
            if self.inb(st, *v as u64, n)?.is_some() {
                good.push(*v);
            } else {
                bad.push(*v);
            }
        }
        if !bad.is_empty() {
            let mut g = self.cx.fls;
            let w = self.cx.w(a);
            // contiguous block of good addresses is the common case
            for v in &good {
                let k = self.cx.k(w, *v);
                let eq = self.cx.eq(a, k);
                g = self.cx.or(g, eq);
            }
            let ng = self.cx.not(g);
            if let Some(m) = self.feasible(st, ng)? {
                let loc = self.where_(st);
                let at = self.ev(&m, a);
                self.report_m(st, &m, "memory", 0, format!("invalid memory access of {} bytes at {:#x}", n, at), loc);
                if good.is_empty() {
                    return Err(Stop::Dead);
                }
                return Err(Stop::Split(g));
            }
        }
        if good.is_empty() {
            return Err(Stop::Dead);
        }
        if good.len() == 1 {
            return Ok(Addr::One(good[0] as u64));
        }
        Ok(Addr::Many(Rc::new(good)))
    }

    fn load_int(&mut self, st: &State, a: E, n: u64) -> X<E> {
        match self.resolve(st, a, n)? {
            Addr::One(v) => {
                let o = self.inb(st, v, n)?.unwrap();
                Ok(o.read(&mut self.cx, v - o.base, n))
            }
            Addr::Many(vs) => {
                self.st.sym_loads += 1;
                // group by value
                let mut groups: Vec<(E, Vec<u128>)> = vec![];
                let mut idx: HashMap<E, usize> = HashMap::new();
                for v in vs.iter() {
                    let o = self.inb(st, *v as u64, n)?.unwrap();
                    let e = o.read(&mut self.cx, *v as u64 - o.base, n);
                    let i = *idx.entry(e).or_insert_with(|| {
                        groups.push((e, vec![]));
                        groups.len() - 1
                    });
                    groups[i].1.push(*v);
                }
                // the largest group becomes the default
                groups.sort_by_key(|g| g.1.len());
                let mut r = groups.last().unwrap().0;
                for (e, ad) in groups[..groups.len() - 1].iter().rev() {
                    let mut c = self.cx.fls;
                    for v in ad {
                        let k = self.cx.k(64, *v);
                        let eq = self.cx.eq(a, k);
                        c = self.cx.or(c, eq);
                    }
                    r = self.cx.ite(c, *e, r);
                }
                Ok(r)
            }
        }
    }
    fn store_int(&mut self, st: &mut State, a: E, e: E, n: u64) -> X<()> {
        match self.resolve(st, a, n)? {
            Addr::One(v) => {
                let o = self.obj_mut(st, v)?;
                if o.kind == Kind::Const {
                    return Err(Stop::Fatal("store to constant".into()));
                }
                let b = o.base;
                for i in 0..n {
                    o.set(v - b + i, Cell { e, b: i as u8 });
                }
                Ok(())
            }
            Addr::Many(vs) => {
                self.st.sym_stores += 1;
                for v in vs.iter() {
                    let v = *v as u64;
                    let o = self.inb(st, v, n)?.unwrap();
                    if o.kind == Kind::Const {
                        return Err(Stop::Fatal("store to constant".into()));
                    }
                    let old = o.read(&mut self.cx, v - o.base, n);
                    let k = self.cx.k(64, v as u128);
                    let eq = self.cx.eq(a, k);
                    let nv = self.cx.ite(eq, e, old);
                    let o = self.obj_mut(st, v)?;
                    let b = o.base;
                    for i in 0..n {
                        o.set(v - b + i, Cell { e: nv, b: i as u8 });
                    }
                }
                Ok(())
            }
        }
    }
    fn load(&mut self, st: &State, t: &Ty, a: E) -> X<Val> {
        match t {
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    let (o, ft) = t.field_off(i);
                    let ok = self.cx.k(64, o as u128);
                    let ad = self.cx.bin(Op::Add, a, ok);
                    v.push(self.load(st, &ft, ad)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, et) => self.load_arr(st, *n, et, a),
            Ty::Vec(n, et) => self.load_arr(st, *n as u64, et, a),
            _ => {
                let n = store_bytes(t);
                let e = self.load_int(st, a, n)?;
                let w = t.width();
                Ok(Val::E(if self.cx.w(e) != w { self.cx.extract(e, 0, w) } else { e }))
            }
        }
    }
    fn load_arr(&mut self, st: &State, n: u64, et: &Ty, a: E) -> X<Val> {
        let s = et.size();
        let mut v = vec![];
        for i in 0..n {
            let ok = self.cx.k(64, (i * s) as u128);
            let ad = self.cx.bin(Op::Add, a, ok);
            v.push(self.load(st, et, ad)?);
        }
        Ok(Val::Agg(Rc::new(v)))
    }
    fn store(&mut self, st: &mut State, t: &Ty, v: &Val, a: E) -> X<()> {
        match (t, v) {
            (Ty::Struct(fs, _), Val::Agg(vs)) => {
                for i in 0..fs.len() {
                    let (o, ft) = t.field_off(i);
                    let ok = self.cx.k(64, o as u128);
                    let ad = self.cx.bin(Op::Add, a, ok);
                    self.store(st, &ft, &vs[i], ad)?;
                }
                Ok(())
            }
            (Ty::Arr(_, et), Val::Agg(vs)) | (Ty::Vec(_, et), Val::Agg(vs)) => {
                let s = et.size();
                for (i, x) in vs.iter().enumerate() {
                    let ok = self.cx.k(64, (i as u64 * s) as u128);
                    let ad = self.cx.bin(Op::Add, a, ok);
                    self.store(st, et, x, ad)?;
                }
                Ok(())
            }
            (_, Val::E(e)) => {
                let n = store_bytes(t);
                let e = if self.cx.w(*e) as u64 != n * 8 { self.cx.zext(*e, (n * 8) as u8) } else { *e };
                self.store_int(st, a, e, n)
            }
            _ => Err(Stop::Fatal("store shape".into())),
        }
    }

    // ---------------------------------------------------------------- merging

    fn live_at(&mut self, fr: &Frame, ip: u32) -> Rc<Vec<u32>> {
        let key = (fr.fi, fr.blk, ip);
        if let Some(r) = self.live.get(&key) {
            return r.clone();
        }
        let f = &fr.f;
        let b = &f.blocks[fr.blk as usize];
        let words = (f.nregs as usize + 63) / 64;
        let set: Vec<u64> = if ip == 0 {
            b.live_in.clone()
        } else {
            let mut out = vec![0u64; words];
            for t in succs(b) {
                let tb = &f.blocks[t as usize];
                let mut li = tb.live_in.clone();
                for ph in &tb.phis {
                    li[ph.dest as usize / 64] &= !(1 << (ph.dest % 64));
                }
                for ph in &tb.phis {
                    for (pb, o) in &ph.inc {
                        if *pb == fr.blk {
                            if let Opnd::Reg(r) = o {
                                li[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                    }
                }
                for k in 0..words {
                    out[k] |= li[k];
                }
            }
            for i in (ip as usize..b.insts.len()).rev() {
                if let Some(d) = b.insts[i].dest {
                    out[d as usize / 64] &= !(1 << (d % 64));
                }
                for_each_use(&b.insts[i].i, &mut |r| out[r as usize / 64] |= 1 << (r % 64));
            }
            out
        };
        let mut v = vec![];
        for r in 0..f.nregs {
            if set[r as usize / 64] >> (r % 64) & 1 == 1 {
                v.push(r);
            }
        }
        let r = Rc::new(v);
        self.live.insert(key, r.clone());
        r
    }

    fn ptr_like(&self, e: E) -> bool {
        if let Some(v) = self.cx.cv(e) {
            return v >= PTR_LO && v < PTR_HI;
        }
        let i = self.cx.info[e as usize];
        i.hi >= PTR_LO && i.hi < PTR_HI
    }
    /// may two different scalar values be merged under the policy?
    fn mergeable(&self, pol: u8, a: E, b: E) -> bool {
        if a == b {
            return true;
        }
        if self.cx.w(a) != self.cx.w(b) {
            return false;
        }
        if self.cx.w(a) == 64 {
            if pol < 2 {
                return false;
            }
            let (pa, pb) = (self.ptr_like(a), self.ptr_like(b));
            if pa || pb {
                if pol < 3 || !(pa && pb) {
                    return false;
                }
            }
        }
        true
    }
    fn mergeable_val(&self, pol: u8, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::E(x), Val::E(y)) => self.mergeable(pol, *x, *y),
            (Val::Agg(x), Val::Agg(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.mergeable_val(pol, p, q))),
            _ => false,
        }
    }
    fn ite_val(&mut self, g: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::E(x), Val::E(y)) => {
                if x == y {
                    Val::E(*x)
                } else {
                    Val::E(self.cx.ite(g, *x, *y))
                }
            }
            (Val::Agg(x), Val::Agg(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.ite_val(g, p, q)).collect()))
            }
            _ => a.clone(),
        }
    }

    fn merge(&mut self, a: &State, b: &State) -> Option<State> {
        let pol = a.policy.min(b.policy);
        if pol == 0 || a.inputs != b.inputs || a.obs.len() != b.obs.len() || a.frames.len() != b.frames.len() {
            return None;
        }
        let nf = a.frames.len();
        let mut lives = vec![];
        for i in 0..nf {
            let (fa, fb) = (&a.frames[i], &b.frames[i]);
            if fa.fi != fb.fi || fa.blk != fb.blk || fa.ip != fb.ip || fa.allocas != fb.allocas || fa.iters != fb.iters {
                return None;
            }
            let ip = if i + 1 < nf { fa.ip + 1 } else { fa.ip };
            if Rc::ptr_eq(fa, fb) {
                lives.push(Rc::new(vec![]));
                continue;
            }
            let l = self.live_at(fa, ip);
            for r in l.iter() {
                if !self.mergeable_val(pol, &fa.regs[*r as usize], &fb.regs[*r as usize]) {
                    return None;
                }
            }
            lives.push(l);
        }
        // memory
        let mut diffs: Vec<(u64, Vec<(u64, u64)>)> = vec![]; // object, (offset,len)
        let mut only_b: Vec<Rc<Obj>> = vec![];
        if !Rc::ptr_eq(&a.mem.objs, &b.mem.objs) {
            let mut glob: Vec<u64> = vec![];
            for (k, ob) in b.mem.objs.iter() {
                if !a.mem.objs.contains_key(k) {
                    match ob.kind {
                        Kind::Global | Kind::Const => glob.push(*k),
                        Kind::Stack => return None,
                        Kind::Heap => {
                            // must not overlap anything of a
                            if let Some(o) = a.mem.objs.range(..ob.base + ob.size + 1).next_back() {
                                if o.1.base + o.1.size >= ob.base && *o.0 >= HEAP {
                                    return None;
                                }
                            }
                            only_b.push(ob.clone());
                        }
                    }
                }
            }
            for (k, oa) in a.mem.objs.iter() {
                let ob = match b.mem.objs.get(k) {
                    Some(o) => o.clone(),
                    None => match oa.kind {
                        Kind::Global | Kind::Const => match self.gobj(*k) {
                            Ok(Some(o)) => o,
                            _ => return None,
                        },
                        Kind::Stack => return None,
                        Kind::Heap => {
                            if let Some(o) = b.mem.objs.range(..oa.base + oa.size + 1).next_back() {
                                if o.1.base + o.1.size >= oa.base && *o.0 >= HEAP {
                                    return None;
                                }
                            }
                            continue;
                        }
                    },
                };
                if Rc::ptr_eq(oa, &ob) {
                    continue;
                }
                match self.diff_obj(pol, oa, &ob) {
                    None => return None,
                    Some(d) => {
                        if !d.is_empty() {
                            diffs.push((*k, d));
                        }
                    }
                }
            }
            for k in glob {
                let oa = match self.gobj(k) {
                    Ok(Some(o)) => o,
                    _ => return None,
                };
                let ob = b.mem.objs[&k].clone();
                match self.diff_obj(pol, &oa, &ob) {
                    None => return None,
                    Some(d) => {
                        if !d.is_empty() {
                            diffs.push((k, d));
                        }
                    }
                }
            }
        }
        // path conditions
        let sb: HashSet<E, BuildFx> = b.pc.iter().copied().collect();
        let sa: HashSet<E, BuildFx> = a.pc.iter().copied().collect();
        let mut ra: Vec<E> = a.pc.iter().copied().filter(|x| !sb.contains(x)).collect();
        let mut rb: Vec<E> = b.pc.iter().copied().filter(|x| !sa.contains(x)).collect();
        let mut common: Vec<E> = a.pc.iter().copied().filter(|x| sb.contains(x)).collect();
        let mut g = None;
        for (i, x) in ra.iter().enumerate() {
            let nx = self.cx.not(*x);
            if let Some(j) = rb.iter().position(|y| *y == nx) {
                g = Some(*x);
                ra.remove(i);
                rb.remove(j);
                break;
            }
        }
        let conj = |cx: &mut Ctx, v: &[E]| {
            let mut r = cx.tru;
            for x in v {
                r = cx.and(r, *x);
            }
            r
        };
        let ca = conj(&mut self.cx, &ra);
        let cb = conj(&mut self.cx, &rb);
        let g = match g {
            Some(g) => {
                let d = if ca == cb { ca } else { self.cx.ite(g, ca, cb) };
                if d != self.cx.tru {
                    common.push(d);
                }
                g
            }
            None => {
                let nb = self.cx.not(cb);
                if nb != ca {
                    let d = self.cx.or(ca, cb);
                    if d != self.cx.tru {
                        common.push(d);
                    }
                }
                if ra.is_empty() {
                    self.cx.not(cb)
                } else if rb.len() < ra.len() && !rb.is_empty() {
                    self.cx.not(cb)
                } else {
                    ca
                }
            }
        };
        let mut r = a.clone();
        r.pc = common;
        r.steps = a.steps.max(b.steps);
        r.policy = pol;
        r.errno = a.errno || b.errno;
        for i in 0..nf {
            if lives[i].is_empty() {
                continue;
            }
            let fb = b.frames[i].clone();
            let l = lives[i].clone();
            let fa = Rc::make_mut(&mut r.frames[i]);
            for x in l.iter() {
                let k = *x as usize;
                if !fa.regs[k].same(&fb.regs[k]) {
                    fa.regs[k] = self.ite_val(g, &fa.regs[k].clone(), &fb.regs[k]);
                }
            }
        }
        for i in 0..r.obs.len() {
            if r.obs[i] != b.obs[i] {
                r.obs[i] = self.cx.ite(g, r.obs[i], b.obs[i]);
            }
        }
        for o in only_b {
            r.mem.insert(o);
        }
        for (k, d) in diffs {
            let oa = match a.mem.objs.get(&k) {
                Some(o) => o.clone(),
                None => self.gobj(k).ok().flatten().unwrap(),
            };
            let ob = match b.mem.objs.get(&k) {
                Some(o) => o.clone(),
                None => self.gobj(k).ok().flatten().unwrap(),
            };
            let mut o = (*oa).clone();
            for (off, n) in d {
                // undefined on one side: the other side's bytes
                let ua = oa.cell(off).e == UNDEF;
                let ub = ob.cell(off).e == UNDEF;
                if ua || ub {
                    let src = if ua { &ob } else { &oa };
                    for i in 0..n {
                        o.set(off + i, src.cell(off + i));
                    }
                    continue;
                }
                let va = oa.read(&mut self.cx, off, n);
                let vb = ob.read(&mut self.cx, off, n);
                let v = self.cx.ite(g, va, vb);
                for i in 0..n {
                    o.set(off + i, Cell { e: v, b: i as u8 });
                }
            }
            r.mem.insert(Rc::new(o));
        }
        Some(r)
    }

    fn diff_obj(&mut self, pol: u8, a: &Obj, b: &Obj) -> Option<Vec<(u64, u64)>> {
        if a.size != b.size || a.kind != b.kind {
            return None;
        }
        let mut out = vec![];
        let np = a.pages.len();
        let mut off = 0u64;
        while off < a.size {
            let pi = (off / PG) as usize;
            if off % PG == 0 || true {
                let same = match (&a.pages[pi], &b.pages[pi]) {
                    (Some(x), Some(y)) => Rc::ptr_eq(x, y),
                    (None, None) => a.fill == b.fill,
                    _ => false,
                };
                if same {
                    off = (pi as u64 + 1) * PG;
                    continue;
                }
            }
            let (ca, cb) = (a.cell(off), b.cell(off));
            if ca == cb {
                // same byte; but a unit may still differ further on, handled bytewise
                off += 1;
                continue;
            }
            if ca.e == UNDEF || cb.e == UNDEF {
                let (d, u) = if ca.e == UNDEF { (b, a) } else { (a, b) };
                let n = d.unit(&self.cx, off).max(1);
                // all of the other side's bytes undefined?
                let mut k = 0;
                while k < n && u.cell(off + k).e == UNDEF {
                    k += 1;
                }
                out.push((off, k));
                off += k;
                continue;
            }
            let mut n = a.unit(&self.cx, off).max(b.unit(&self.cx, off)).max(1);
            // the unit must be defined on both sides
            for i in 0..n {
                if a.cell(off + i).e == UNDEF || b.cell(off + i).e == UNDEF {
                    n = i;
                    break;
                }
            }
            if n > 16 {
                n = 16;
            }
            let va = a.read(&mut self.cx, off, n);
            let vb = b.read(&mut self.cx, off, n);
            if !self.mergeable(pol, va, vb) {
                return None;
            }
            if va != vb {
                out.push((off, n));
            }
            off += n;
        }
        let _ = np;
        Some(out)
    }

    // ---------------------------------------------------------------- stepping

    fn op(&self, fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }
    fn opv(&self, fr: &Frame, o: &Opnd) -> E {
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].e(),
            Opnd::K(v) => v.e(),
        }
    }

    fn lanes(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Ctx, E, E) -> E) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| Val::E(f(&mut self.cx, p.e(), q.e()))).collect())),
            _ => Val::E(f(&mut self.cx, a.e(), b.e())),
        }
    }
    fn lane1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Ctx, E) -> E) -> Val {
        match a {
            Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|p| Val::E(f(&mut self.cx, p.e()))).collect())),
            _ => Val::E(f(&mut self.cx, a.e())),
        }
    }

    fn icmp(cx: &mut Ctx, k: u8, a: E, b: E) -> E {
        match k {
            0 => cx.eq(a, b),
            1 => {
                let e = cx.eq(a, b);
                cx.not(e)
            }
            2 => cx.cmp(Op::Ult, b, a),
            3 => cx.cmp(Op::Ule, b, a),
            4 => cx.cmp(Op::Ult, a, b),
            5 => cx.cmp(Op::Ule, a, b),
            6 => cx.cmp(Op::Slt, b, a),
            7 => cx.cmp(Op::Sle, b, a),
            8 => cx.cmp(Op::Slt, a, b),
            _ => cx.cmp(Op::Sle, a, b),
        }
    }
    fn fcmp(cx: &mut Ctx, k: u8, a: E, b: E) -> E {
        // "false","oeq","ogt","oge","olt","ole","one","ord","ueq","ugt","uge","ult","ule","une","uno","true"
        let uno = |cx: &mut Ctx| {
            let x = cx.funa(Op::FNan, a, 0, 1);
            let y = cx.funa(Op::FNan, b, 0, 1);
            cx.or(x, y)
        };
        match k {
            0 => cx.fls,
            1 => cx.fbin(Op::FEq, a, b),
            2 => cx.fbin(Op::FLt, b, a),
            3 => cx.fbin(Op::FLe, b, a),
            4 => cx.fbin(Op::FLt, a, b),
            5 => cx.fbin(Op::FLe, a, b),
            6 => {
                let x = cx.fbin(Op::FLt, a, b);
                let y = cx.fbin(Op::FLt, b, a);
                cx.or(x, y)
            }
            7 => {
                let u = uno(cx);
                cx.not(u)
            }
            8 => {
                let e = cx.fbin(Op::FEq, a, b);
                let u = uno(cx);
                cx.or(e, u)
            }
            9 => {
                let e = cx.fbin(Op::FLe, a, b);
                cx.not(e)
            }
            10 => {
                let e = cx.fbin(Op::FLt, a, b);
                cx.not(e)
            }
            11 => {
                let e = cx.fbin(Op::FLe, b, a);
                cx.not(e)
            }
            12 => {
                let e = cx.fbin(Op::FLt, b, a);
                cx.not(e)
            }
            13 => {
                let e = cx.fbin(Op::FEq, a, b);
                cx.not(e)
            }
            14 => uno(cx),
            _ => cx.tru,
        }
    }
    fn cast(cx: &mut Ctx, k: u8, a: E, from: &Ty, to: &Ty) -> E {
        let w = to.width();
        match CASTS[k as usize] {
            "zext" => cx.zext(a, w),
            "sext" => cx.sext(a, w),
            "trunc" => cx.extract(a, 0, w),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                let aw = cx.w(a);
                if aw == w {
                    a
                } else if aw < w {
                    cx.zext(a, w)
                } else {
                    cx.extract(a, 0, w)
                }
            }
            "bitcast" => a,
            "sitofp" => cx.funa(Op::SToF, a, 0, w),
            "uitofp" => cx.funa(Op::UToF, a, 0, w),
            "fptosi" => cx.funa(Op::FToS, a, 0, w),
            "fptoui" => cx.funa(Op::FToU, a, 0, w),
            "fpext" | "fptrunc" => cx.funa(Op::FCvt, a, 0, w),
            o => panic!("cast {} {:?}", o, from),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let from = fr.blk;
        let tb = &f.blocks[to as usize];
        if !tb.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(tb.phis.len());
            for ph in &tb.phis {
                let o = ph.inc.iter().find(|(b, _)| *b == from).expect("phi edge");
                let v = match &o.1 {
                    Opnd::Reg(r) => fr.regs[*r as usize].clone(),
                    Opnd::K(v) => v.clone(),
                };
                vals.push((ph.dest, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        // loop iteration counters
        let tl = &tb.loops;
        let mut k = 0;
        while k < tl.len() && k < fr.iters.len() && fr.iters[k].0 == tl[k] {
            k += 1;
        }
        let had = fr.iters.len();
        fr.iters.truncate(k);
        if k == tl.len() && tl.last() == Some(&to) && k > 0 && had >= k {
            // back edge to the header of a loop we are in
            fr.iters[k - 1].1 += 1;
        }
        for h in &tl[k..] {
            fr.iters.push((*h, 0));
        }
        fr.blk = to;
        fr.ip = 0;
    }

    fn set(&mut self, st: &mut State, d: Option<u32>, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if let Some(d) = d {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> X<Flow> {
        st.steps += 1;
        self.st.steps += 1;
        let fr = st.frames.last().unwrap().clone_light();
        let f = fr.0;
        let (blk, ip) = (fr.1, fr.2);
        let ins = &f.blocks[blk as usize].insts[ip as usize];
        if ins.dbg != 0 {
            self.dbg_seen.insert(ins.dbg);
        }
        let d = ins.dest;
        macro_rules! fr {
            () => {
                &**st.frames.last().unwrap()
            };
        }
        let v: Val = match &ins.i {
            I::Bin(op, a, b) => {
                let (x, y) = (self.op(fr!(), a), self.op(fr!(), b));
                if let (Val::E(p), Val::E(q)) = (&x, &y) {
                    if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                        let w = self.cx.w(*q);
                        let z = self.cx.k(w, 0);
                        let isz = self.cx.eq(*q, z);
                        if let Some(m) = self.feasible(st, isz)? {
                            let loc = self.where_(st);
                            self.report_m(st, &m, "ub", 1, "division by zero".into(), loc);
                            let nz = self.cx.not(isz);
                            if !self.constrain(st, nz) {
                                return Err(Stop::Dead);
                            }
                        }
                    }
                    Val::E(self.cx.bin(*op, *p, *q))
                } else {
                    self.lanes(&x, &y, &mut |cx, p, q| cx.bin(*op, p, q))
                }
            }
            I::FBin(op, a, b) => {
                let (x, y) = (self.op(fr!(), a), self.op(fr!(), b));
                self.lanes(&x, &y, &mut |cx, p, q| cx.fbin(*op, p, q))
            }
            I::FNeg(a) => {
                let x = self.op(fr!(), a);
                self.lane1(&x, &mut |cx, p| cx.fneg(p))
            }
            I::ICmp(k, a, b) => {
                let (x, y) = (self.op(fr!(), a), self.op(fr!(), b));
                self.lanes(&x, &y, &mut |cx, p, q| Self::icmp(cx, *k, p, q))
            }
            I::FCmp(k, a, b) => {
                let (x, y) = (self.op(fr!(), a), self.op(fr!(), b));
                self.lanes(&x, &y, &mut |cx, p, q| Self::fcmp(cx, *k, p, q))
            }
            I::Cast(k, a, from, to) => {
                let x = self.op(fr!(), a);
                match (&x, from, to) {
                    (Val::Agg(_), Ty::Vec(n, ft), Ty::Vec(m, tt)) if n == m => self.lane1(&x, &mut |cx, p| Self::cast(cx, *k, p, ft, tt)),
                    (Val::Agg(v), Ty::Vec(..), _) if !to.is_agg() => {
                        // bitcast vector -> scalar, lane 0 lowest
                        let mut acc: Option<E> = None;
                        for l in v.iter() {
                            acc = Some(match acc {
                                None => l.e(),
                                Some(a) => self.cx.concat(l.e(), a),
                            });
                        }
                        Val::E(acc.unwrap())
                    }
                    (Val::E(e), _, Ty::Vec(n, tt)) => {
                        let w = tt.width();
                        Val::Agg(Rc::new((0..*n).map(|i| Val::E(self.cx.extract(*e, (i as u8) * w, w))).collect()))
                    }
                    (Val::E(e), _, _) => Val::E(Self::cast(&mut self.cx, *k, *e, from, to)),
                    _ => return Err(Stop::Fatal("cast shape".into())),
                }
            }
            I::Select(c, a, b) => {
                let cv = self.op(fr!(), c);
                let (x, y) = (self.op(fr!(), a), self.op(fr!(), b));
                match cv {
                    Val::Agg(cs) => match (&x, &y) {
                        (Val::Agg(p), Val::Agg(q)) => Val::Agg(Rc::new((0..p.len()).map(|i| self.ite_val(cs[i].e(), &p[i], &q[i])).collect())),
                        _ => return Err(Stop::Fatal("select".into())),
                    },
                    Val::E(c) => match self.cx.cv(c) {
                        Some(0) => y,
                        Some(_) => x,
                        None => {
                            // selecting between different pointers: decide the condition instead
                            if let (Val::E(p), Val::E(q)) = (&x, &y) {
                                if p != q && self.cx.w(*p) == 64 && (self.ptr_like(*p) || self.ptr_like(*q)) {
                                    let nc = self.cx.not(c);
                                    if self.feasible(st, c)?.is_none() {
                                        self.set(st, d, y);
                                        return Ok(Flow::Next);
                                    }
                                    if self.feasible(st, nc)?.is_none() {
                                        self.set(st, d, x);
                                        return Ok(Flow::Next);
                                    }
                                    let same_obj = match (self.cx.cv(*p), self.cx.cv(*q)) {
                                        (Some(a), Some(b)) => match (self.obj(st, a as u64)?, self.obj(st, b as u64)?) {
                                            (Some(o1), Some(o2)) => o1.base == o2.base,
                                            _ => false,
                                        },
                                        _ => self.ptr_like(*p) && self.ptr_like(*q),
                                    };
                                    if !same_obj {
                                        return Err(Stop::Split(c));
                                    }
                                }
                            }
                            self.ite_val(c, &x, &y)
                        }
                    },
                }
            }
            I::Alloca(size, align) => {
                let a = st.mem.place(STACK, 0x7000_0000_0000, (*size).max(1), *align);
                st.mem.insert(Rc::new(Obj::new(a, *size, Kind::Stack, UCELL)));
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a);
                Val::E(self.cx.k(64, a as u128))
            }
            I::Load(t, a) => {
                let ad = self.opv(fr!(), a);
                self.load(st, t, ad)?
            }
            I::Store(t, v, a) => {
                let val = self.op(fr!(), v);
                let ad = self.opv(fr!(), a);
                self.store(st, t, &val, ad)?;
                self.set(st, None, Val::E(0));
                return Ok(Flow::Next);
            }
            I::Gep(base, terms, off) => {
                let mut e = self.opv(fr!(), base);
                let k = self.cx.k(64, *off as u64 as u128);
                e = self.cx.bin(Op::Add, e, k);
                for (o, sz) in terms {
                    let x = self.opv(fr!(), o);
                    let w = self.cx.w(x);
                    let x = if w < 64 {
                        self.cx.sext(x, 64)
                    } else if w > 64 {
                        self.cx.extract(x, 0, 64)
                    } else {
                        x
                    };
                    let s = self.cx.k(64, *sz as u128);
                    let p = self.cx.bin(Op::Mul, x, s);
                    e = self.cx.bin(Op::Add, e, p);
                }
                Val::E(e)
            }
            I::ExtractValue(a, ix) => {
                let mut v = self.op(fr!(), a);
                for i in ix {
                    v = match &v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Fatal("extractvalue".into())),
                    };
                }
                v
            }
            I::InsertValue(a, b, ix) => {
                let v = self.op(fr!(), a);
                let x = self.op(fr!(), b);
                fn ins(v: &Val, ix: &[u32], x: &Val) -> Val {
                    if ix.is_empty() {
                        return x.clone();
                    }
                    match v {
                        Val::Agg(y) => {
                            let mut y = (**y).clone();
                            y[ix[0] as usize] = ins(&y[ix[0] as usize], &ix[1..], x);
                            Val::Agg(Rc::new(y))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                ins(&v, ix, &x)
            }
            I::Copy(a) => self.op(fr!(), a),
            I::ExtractElt(a, b) => {
                let v = self.op(fr!(), a);
                let i = self.opv(fr!(), b);
                let i = self.concretize(st, i)? as usize;
                match &v {
                    Val::Agg(x) => x[i].clone(),
                    _ => return Err(Stop::Fatal("extractelement".into())),
                }
            }
            I::InsertElt(a, b, c) => {
                let v = self.op(fr!(), a);
                let x = self.op(fr!(), b);
                let i = self.opv(fr!(), c);
                let i = self.concretize(st, i)? as usize;
                match &v {
                    Val::Agg(y) => {
                        let mut y = (**y).clone();
                        y[i] = x;
                        Val::Agg(Rc::new(y))
                    }
                    _ => return Err(Stop::Fatal("insertelement".into())),
                }
            }
            I::Shuffle(a, b, m) => {
                let (x, y) = (self.op(fr!(), a), self.op(fr!(), b));
                match (&x, &y) {
                    (Val::Agg(p), Val::Agg(q)) => {
                        let n = p.len();
                        Val::Agg(Rc::new(m.iter().map(|i| if (*i as usize) < n { p[*i as usize].clone() } else { q.get(*i as usize - n).cloned().unwrap_or(p[0].clone()) }).collect()))
                    }
                    _ => return Err(Stop::Fatal("shuffle".into())),
                }
            }
            I::AtomicRmw(op, t, a, b) => {
                let ad = self.opv(fr!(), a);
                let nv = self.op(fr!(), b);
                let old = self.load(st, t, ad)?;
                let (o, n) = (old.e(), nv.e());
                let r = match op.as_str() {
                    "xchg" => n,
                    "add" => self.cx.bin(Op::Add, o, n),
                    "sub" => self.cx.bin(Op::Sub, o, n),
                    "and" => self.cx.bin(Op::And, o, n),
                    "or" => self.cx.bin(Op::Or, o, n),
                    x => return Err(Stop::Fatal(format!("atomicrmw {}", x))),
                };
                self.store(st, t, &Val::E(r), ad)?;
                old
            }
            I::CmpXchg(t, a, c, n) => {
                let ad = self.opv(fr!(), a);
                let (cv, nv) = (self.opv(fr!(), c), self.op(fr!(), n));
                let old = self.load(st, t, ad)?;
                let eq = self.cx.eq(old.e(), cv);
                let s = self.ite_val(eq, &nv, &old);
                self.store(st, t, &s, ad)?;
                Val::Agg(Rc::new(vec![old, Val::E(eq)]))
            }
            I::Br(t) => {
                self.jump(st, *t);
                return Ok(Flow::Jump);
            }
            I::CondBr(c, a, b) => {
                let c = self.opv(fr!(), c);
                if let Some(v) = self.cx.cv(c) {
                    self.jump(st, if v != 0 { *a } else { *b });
                    return Ok(Flow::Jump);
                }
                let m = st.model.clone();
                let side = self.ev(&m, c) != 0;
                let nc = self.cx.not(c);
                let (here, other) = if side { (c, nc) } else { (nc, c) };
                let (hb, ob) = if side { (*a, *b) } else { (*b, *a) };
                match self.s.check(&mut self.cx, &st.pc, other) {
                    (Sat::Unsat, _) => {
                        self.jump(st, hb);
                        return Ok(Flow::Jump);
                    }
                    (Sat::Sat, Some(asg)) => {
                        self.st.forks += 1;
                        if self.trace {
                            *self.prof.entry((self.st_fi(st), blk)).or_insert(0) += 1;
                        }
                        let mut o = st.clone();
                        o.model = self.model_with(&st.model, &asg);
                        self.push_pc(&mut o, other);
                        self.jump(&mut o, ob);
                        let mut h = st.clone();
                        self.push_pc(&mut h, here);
                        self.jump(&mut h, hb);
                        return Ok(Flow::Fork(vec![h, o]));
                    }
                    _ => {
                        let w = self.where_(st);
                        self.incomplete.push(format!("solver gave no answer (branch at {})", w));
                        self.push_pc(st, here);
                        self.jump(st, hb);
                        return Ok(Flow::Jump);
                    }
                }
            }
            I::Switch(c, def, cases) => {
                let c = self.opv(fr!(), c);
                if let Some(v) = self.cx.cv(c) {
                    let t = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*def);
                    self.jump(st, t);
                    return Ok(Flow::Jump);
                }
                let w = self.cx.w(c);
                let mut groups: Vec<(u32, E)> = vec![];
                let mut any = self.cx.fls;
                for (k, t) in cases {
                    let kk = self.cx.k(w, *k);
                    let eq = self.cx.eq(c, kk);
                    any = self.cx.or(any, eq);
                    match groups.iter_mut().find(|g| g.0 == *t) {
                        Some(g) => g.1 = self.cx.or(g.1, eq),
                        None => groups.push((*t, eq)),
                    }
                }
                let none = self.cx.not(any);
                match groups.iter_mut().find(|g| g.0 == *def) {
                    Some(g) => g.1 = self.cx.or(g.1, none),
                    None => groups.push((*def, none)),
                }
                let mut out = vec![];
                for (t, cond) in groups {
                    if let Some(m) = self.feasible(st, cond)? {
                        out.push((t, cond, m));
                    }
                }
                if out.len() == 1 {
                    self.jump(st, out[0].0);
                    return Ok(Flow::Jump);
                }
                self.st.forks += 1;
                let mut v = vec![];
                for (t, cond, m) in out {
                    let mut o = st.clone();
                    o.model = m;
                    self.push_pc(&mut o, cond);
                    self.jump(&mut o, t);
                    v.push(o);
                }
                return Ok(Flow::Fork(v));
            }
            I::Ret(v) => {
                let val = v.as_ref().map(|o| self.op(fr!(), o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(*a);
                }
                if st.frames.is_empty() {
                    return Ok(Flow::Done);
                }
                let cal = Rc::make_mut(st.frames.last_mut().unwrap());
                let f = cal.f.clone();
                let ci = &f.blocks[cal.blk as usize].insts[cal.ip as usize];
                if let (Some(d), Some(v)) = (ci.dest, val) {
                    cal.regs[d as usize] = v;
                }
                cal.ip += 1;
                return Ok(Flow::Ret);
            }
            I::Unreachable => {
                let loc = self.where_(st);
                self.report(st, "ub", 2, "unreachable code reached".into(), loc);
                return Err(Stop::Dead);
            }
            I::Nop => Val::E(self.cx.fls),
            I::Bad(s) => return Err(Stop::Fatal(format!("unsupported: {}", s))),
            I::Call { callee, args, ret, .. } => {
                return self.call(st, callee, args, ret, d);
            }
        };
        self.set(st, d, v);
        Ok(Flow::Next)
    }
    fn st_fi(&self, st: &State) -> u32 {
        st.frames.last().unwrap().fi
    }

    fn classify(&mut self, name: &str) -> CallKind {
        if name.starts_with("rv_") || name.starts_with("llvm.") {
            return CallKind::Builtin(name.to_string());
        }
        if is_panic_fn(name) {
            return CallKind::Panic(name.to_string());
        }
        if name.ends_with("___rust_no_alloc_shim_is_unstable_v2") {
            return CallKind::Builtin("nop".into());
        }
        match self.m.fmap.get(name) {
            Some(i) if self.m.fns[*i].body.is_some() => CallKind::Body(*i as u32),
            _ => {
                if let Some(a) = self.m.aliases.get(name).cloned() {
                    return self.classify(&a);
                }
                CallKind::Builtin(name.to_string())
            }
        }
    }

    fn call(&mut self, st: &mut State, callee: &Callee, args: &[Opnd], ret: &Ty, d: Option<u32>) -> X<Flow> {
        let fr = st.frames.last().unwrap().clone();
        let av: Vec<Val> = args.iter().map(|o| self.op(&fr, o)).collect();
        drop(fr);
        let kind = match callee {
            Callee::Fn(n) => self.classify(n),
            Callee::Ind(o) => {
                let e = self.opv(st.frames.last().unwrap(), o);
                let a = self.concretize(st, e)? as u64;
                match self.m.fn_by_addr.get(&a) {
                    Some(i) => {
                        let n = self.m.fns[*i].name.clone();
                        self.classify(&n)
                    }
                    None => return Err(Stop::Fatal(format!("indirect call to {:#x}", a))),
                }
            }
            Callee::Asm => {
                self.set(st, d, Val::E(self.cx.fls));
                return Ok(Flow::Next);
            }
        };
        match kind {
            CallKind::Body(i) => {
                let f = self.m.func(i as usize, &mut self.cx).map_err(Stop::Fatal)?;
                self.fns_entered.insert(i);
                let z = Val::E(self.cx.fls);
                let mut regs = vec![z; f.nregs as usize];
                for (k, (r, _)) in f.params.iter().enumerate() {
                    regs[*r as usize] = av[k].clone();
                }
                if st.frames.len() > 200 {
                    return Err(Stop::Fatal("call depth".into()));
                }
                let mut iters = vec![];
                for h in &f.blocks[0].loops {
                    iters.push((*h, 0));
                }
                st.frames.push(Rc::new(Frame { f, fi: i, blk: 0, ip: 0, regs, iters, allocas: vec![] }));
                Ok(Flow::Next)
            }
            CallKind::Panic(n) => {
                let (msg, loc) = self.panic_info(st, &n, &av);
                let id = 0;
                self.report(st, "panic", id, msg, loc);
                Err(Stop::Dead)
            }
            CallKind::Builtin(n) => self.builtin(st, &n, &av, ret, d),
        }
    }

    fn panic_info(&mut self, st: &State, n: &str, av: &[Val]) -> (String, String) {
        let short = {
            // last path component of the mangled name
            let mut s = n;
            if let Some(i) = s.rfind("panic") {
                s = &s[i..];
            } else if s.len() > 40 {
                s = &s[s.len() - 40..];
            }
            s.to_string()
        };
        let mut loc = String::new();
        for a in av.iter().rev() {
            if let Val::E(e) = a {
                if let Some(v) = self.cx.cv(*e) {
                    let v = v as u64;
                    if v >= GL_BASE && v < HEAP {
                        if let Ok(Some(o)) = self.obj(st, v) {
                            let off = v - o.base;
                            if off + 24 <= o.size {
                                let (p, l, ln) = (o.read(&mut self.cx, off, 8), o.read(&mut self.cx, off + 8, 8), o.read(&mut self.cx, off + 16, 4));
                                if let (Some(p), Some(l), Some(ln)) = (self.cx.cv(p), self.cx.cv(l), self.cx.cv(ln)) {
                                    if l < 400 && p as u64 >= GL_BASE && (p as u64) < HEAP {
                                        if let Ok(Some(so)) = self.obj(st, p as u64) {
                                            let so_off = p as u64 - so.base;
                                            if so_off + l as u64 <= so.size {
                                                let mut s = String::new();
                                                for i in 0..l as u64 {
                                                    let e = so.read(&mut self.cx, so_off + i, 1);
                                                    s.push(self.cx.cv(e).unwrap_or(63) as u8 as char);
                                                }
                                                loc = format!("{}:{}", s, ln);
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut msg = String::new();
        if n.contains("9panicking5panic") || n.contains("13expect_failed") {
            if let (Some(Val::E(p)), Some(Val::E(l))) = (av.first(), av.get(1)) {
                if let (Some(p), Some(l)) = (self.cx.cv(*p), self.cx.cv(*l)) {
                    if l < 300 {
                        if let Ok(Some(so)) = self.obj(st, p as u64) {
                            let off = p as u64 - so.base;
                            if off + l as u64 <= so.size {
                                for i in 0..l as u64 {
                                    let e = so.read(&mut self.cx, off + i, 1);
                                    msg.push(self.cx.cv(e).unwrap_or(63) as u8 as char);
                                }
                            }
                        }
                    }
                }
            }
        }
        let w = self.where_(st);
        if loc.is_empty() || loc.contains("/rustc/") || loc.contains("library/") || loc.contains("src/slice") || loc.contains("registry/") {
            loc = w;
        }
        (if msg.is_empty() { short } else { msg }, loc)
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> E {
        let a = st.mem.place(HEAP, STACK, size.max(1), align);
        let fill = if zero {
            let z = self.cx.k(8, 0);
            Cell { e: z, b: 0 }
        } else {
            UCELL
        };
        st.mem.insert(Rc::new(Obj::new(a, size, Kind::Heap, fill)));
        self.cx.k(64, a as u128)
    }

    fn copy_bytes(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let so = match self.inb(st, src, n)? {
            Some(o) => o,
            None => {
                let loc = self.where_(st);
                self.report(st, "memory", 0, format!("invalid copy source {:#x}+{}", src, n), loc);
                return Err(Stop::Dead);
            }
        };
        let cells = so.read_cells(src - so.base, n);
        drop(so);
        if self.inb(st, dst, n)?.is_none() {
            let loc = self.where_(st);
            self.report(st, "memory", 0, format!("invalid copy destination {:#x}+{}", dst, n), loc);
            return Err(Stop::Dead);
        }
        let o = self.obj_mut(st, dst)?;
        let b = o.base;
        for (i, c) in cells.iter().enumerate() {
            o.set(dst - b + i as u64, *c);
        }
        Ok(())
    }

    fn input(&mut self, st: &mut State, w: u8, tag: &str, lo: u128, hi: u128) -> E {
        let k = st.inputs.len();
        if let Some(f) = &self.force_inputs {
            let v = f.get(k).copied().unwrap_or(lo);
            let e = self.cx.k(w, v);
            st.inputs.push(Input::Sym(e));
            return e;
        }
        let key = (k, (w as u64) << 56 | ((lo as u64) & 0xfffffff) << 28 | (hi as u64 & 0xfffffff));
        let e = match self.insym.get(&key) {
            Some(e) => *e,
            None => {
                let full = lo == 0 && hi == mask(w);
                let e = if full {
                    self.cx.sym(w, &format!("{}{}", tag, k))
                } else {
                    let span = hi - lo;
                    let bits = (128 - span.leading_zeros()).max(1) as u8;
                    let s = self.cx.sym(bits, &format!("{}{}", tag, k));
                    if span != mask(bits) {
                        // every use of the symbol is on a path that carries this bound
                        self.cx.bound_sym(s, span);
                        let node_hi = self.cx.k(bits, span);
                        let c = self.cx.raw_ule(s, node_hi);
                        self.inassume.insert(s, c);
                    }
                    let z = self.cx.zext(s, w);
                    let l = self.cx.k(w, lo);
                    let e = self.cx.bin(Op::Add, z, l);
                    if let Some(c) = self.inassume.get(&s).copied() {
                        self.inassume.insert(e, c);
                    }
                    e
                };
                self.insym.insert(key, e);
                e
            }
        };
        if let Some(c) = self.inassume.get(&e).copied() {
            if !st.pc.contains(&c) {
                st.pc.push(c);
            }
        }
        st.inputs.push(Input::Sym(e));
        e
    }

    fn builtin(&mut self, st: &mut State, n: &str, av: &[Val], ret: &Ty, d: Option<u32>) -> X<Flow> {
        let e = |i: usize| -> E { av[i].e() };
        let done = |me: &mut Self, st: &mut State, v: Val| -> X<Flow> {
            me.set(st, d, v);
            Ok(Flow::Next)
        };
        let unit = Val::E(self.cx.fls);
        if let Some(b) = n.strip_prefix("llvm.") {
            let base = b;
            // intrinsics with side effects or special operands first
            if base.starts_with("lifetime.") {
                let p = av.last().unwrap().e();
                if let Some(a) = self.cx.cv(p) {
                    if let Some(o) = st.mem.find(a as u64) {
                        if o.base == a as u64 && o.kind == Kind::Stack {
                            let fresh = o.fill == UCELL && o.pages.iter().all(|x| x.is_none());
                            if !fresh {
                                let b = o.base;
                                st.mem.get_mut(b).wipe();
                            }
                        }
                    }
                }
                return done(self, st, unit);
            }
            if base.starts_with("memcpy.") || base.starts_with("memmove.") {
                let l = self.concretize(st, e(2))? as u64;
                if l == 0 {
                    return done(self, st, unit);
                }
                let dst = self.concretize(st, e(0))? as u64;
                let src = self.concretize(st, e(1))? as u64;
                self.copy_bytes(st, dst, src, l)?;
                return done(self, st, unit);
            }
            if base.starts_with("memset.") {
                let l = self.concretize(st, e(2))? as u64;
                if l == 0 {
                    return done(self, st, unit);
                }
                let dst = self.concretize(st, e(0))? as u64;
                if self.inb(st, dst, l)?.is_none() {
                    let loc = self.where_(st);
                    self.report(st, "memory", 0, format!("invalid memset {:#x}+{}", dst, l), loc);
                    return Err(Stop::Dead);
                }
                let v = e(1);
                let o = self.obj_mut(st, dst)?;
                let b = o.base;
                if dst == b && l == o.size {
                    for p in o.pages.iter_mut() {
                        *p = None;
                    }
                    o.fill = Cell { e: v, b: 0 };
                } else {
                    for i in 0..l {
                        o.set(dst - b + i, Cell { e: v, b: 0 });
                    }
                }
                return done(self, st, unit);
            }
            if base == "assume" {
                return done(self, st, unit);
            }
            if base.starts_with("experimental.noalias") || base.starts_with("dbg.") || base.starts_with("prefetch") || base.starts_with("x86.sse2.pause") || base.starts_with("invariant.") || base.starts_with("donothing") || base.starts_with("va_") {
                return done(self, st, unit);
            }
            if base == "trap" || base == "ubsantrap" {
                let loc = self.where_(st);
                self.report(st, "panic", 0, "trap".into(), loc);
                return Err(Stop::Dead);
            }
            if base.starts_with("expect.") || base.starts_with("threadlocal.address") || base.starts_with("ssa.copy") || base.starts_with("launder.") {
                return done(self, st, av[0].clone());
            }
            if base.starts_with("is.constant") {
                return done(self, st, unit);
            }
            if base.starts_with("objectsize") {
                let w = ret.width();
                let v = self.cx.k(w, mask(w));
                return done(self, st, Val::E(v));
            }
            if base.starts_with("load.relative") {
                let off = self.concretize(st, e(1))? as u64;
                let p = self.concretize(st, e(0))? as u64;
                let ad = self.cx.k(64, p.wrapping_add(off) as u128);
                let v = self.load_int(st, ad, 4)?;
                let s = self.cx.sext(v, 64);
                let pk = self.cx.k(64, p as u128);
                let r = self.cx.bin(Op::Add, pk, s);
                return done(self, st, Val::E(r));
            }
            let r = if let Val::Agg(_) = av[0] {
                // lane-wise
                let nl = match &av[0] {
                    Val::Agg(x) => x.len(),
                    _ => 0,
                };
                let rt = match ret {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => return Err(Stop::Fatal(format!("vector intrinsic {}", n))),
                };
                let mut out = vec![];
                for i in 0..nl {
                    let la: Vec<E> = av
                        .iter()
                        .map(|v| match v {
                            Val::Agg(x) => x[i].e(),
                            Val::E(e) => *e,
                        })
                        .collect();
                    match self.pure(base, &la, &rt) {
                        Some(v) => out.push(v),
                        None => return Err(Stop::Fatal(format!("intrinsic {}", n))),
                    }
                }
                Val::Agg(Rc::new(out))
            } else {
                let la: Vec<E> = av.iter().map(|v| v.e()).collect();
                match self.pure(base, &la, ret) {
                    Some(v) => v,
                    None => return Err(Stop::Fatal(format!("intrinsic {}", n))),
                }
            };
            return done(self, st, r);
        }
        match n {
            "nop" => done(self, st, unit),
            "rv_bool" => {
                let v = self.input(st, 1, "b", 0, 1);
                done(self, st, Val::E(v))
            }
            "rv_u8" => {
                let v = self.input(st, 8, "u", 0, mask(8));
                done(self, st, Val::E(v))
            }
            "rv_u16" => {
                let v = self.input(st, 16, "u", 0, mask(16));
                done(self, st, Val::E(v))
            }
            "rv_u32" | "rv_f32" => {
                let v = self.input(st, 32, "u", 0, mask(32));
                done(self, st, Val::E(v))
            }
            "rv_u64" => {
                let v = self.input(st, 64, "u", 0, mask(64));
                done(self, st, Val::E(v))
            }
            "rv_range" => {
                let (lo, hi) = (self.concretize(st, e(0))?, self.concretize(st, e(1))?);
                if lo == hi {
                    let v = self.cx.k(32, lo);
                    st.inputs.push(Input::Case(lo as u32));
                    return done(self, st, Val::E(v));
                }
                let v = self.input(st, 32, "r", lo, hi);
                done(self, st, Val::E(v))
            }
            "rv_case" => {
                let k = self.concretize(st, e(0))? as u32;
                let first = st.cases.is_empty();
                if let Some(f) = &self.force_inputs {
                    let v = f.get(st.inputs.len()).copied().unwrap_or(0);
                    st.inputs.push(Input::Case(v as u32));
                    let kk = self.cx.k(32, v);
                    return done(self, st, Val::E(kk));
                }
                let mut v = vec![];
                for i in 0..k {
                    if first && i % self.shard.1 != self.shard.0 {
                        continue;
                    }
                    let mut o = st.clone();
                    o.cases.push(i);
                    o.inputs.push(Input::Case(i));
                    let kk = self.cx.k(32, i as u128);
                    self.set(&mut o, d, Val::E(kk));
                    self.st.cases += 1;
                    v.push(o);
                }
                Ok(Flow::Fork(v))
            }
            "rv_policy" => {
                st.policy = self.concretize(st, e(0))? as u8;
                done(self, st, unit)
            }
            "rv_concretize" => {
                let v = self.concretize(st, e(0))?;
                let k = self.cx.k(64, v);
                done(self, st, Val::E(k))
            }
            "rv_assume" => {
                let c = e(0);
                let c = if self.cx.w(c) == 1 { c } else { self.cx.extract(c, 0, 1) };
                if !self.constrain(st, c) {
                    return Err(Stop::Dead);
                }
                done(self, st, unit)
            }
            "rv_check" => {
                let c = e(0);
                let id = self.concretize(st, e(1))? as u64;
                if self.only_checks.as_ref().is_some_and(|o| !o.contains(&id)) {
                    return done(self, st, unit);
                }
                let ent = self.checks.entry(id).or_insert((0, 0));
                ent.0 += 1;
                if self.cx.cv(c) != Some(1) {
                    ent.1 += 1;
                    let nc = self.cx.not(c);
                    if let Some(m) = self.feasible(st, nc)? {
                        let loc = self.where_(st);
                        self.report_m(st, &m, "check", id, format!("check {} failed", id), loc);
                        if !self.constrain(st, c) {
                            return Err(Stop::Dead);
                        }
                    }
                }
                done(self, st, unit)
            }
            "rv_cover" => {
                let c = e(0);
                let id = self.concretize(st, e(1))? as u64;
                if self.covers.get(&id).map(|x| x.is_none()).unwrap_or(true) {
                    let r = self.feasible(st, c)?;
                    let r = r.map(|m| self.input_values(st, &m));
                    self.covers.insert(id, r);
                }
                done(self, st, unit)
            }
            "rv_observe" => {
                st.obs.push(e(0));
                done(self, st, unit)
            }
            "rv_debug" => {
                let x = e(0);
                eprintln!("DEBUG {} [{}..{}]", self.cx.show(x, 6), self.cx.info[x as usize].lo, self.cx.info[x as usize].hi);
                done(self, st, unit)
            }
            "malloc" => {
                let s = self.concretize(st, e(0))? as u64;
                let p = self.alloc(st, s, 16, false);
                done(self, st, Val::E(p))
            }
            "calloc" => {
                let a = self.concretize(st, e(0))? as u64;
                let b = self.concretize(st, e(1))? as u64;
                let p = self.alloc(st, a.saturating_mul(b), 16, true);
                done(self, st, Val::E(p))
            }
            "posix_memalign" => {
                let al = self.concretize(st, e(1))? as u64;
                let s = self.concretize(st, e(2))? as u64;
                let p = self.alloc(st, s, al, false);
                self.store_int(st, e(0), p, 8)?;
                let z = self.cx.k(32, 0);
                done(self, st, Val::E(z))
            }
            "realloc" => {
                let p = self.concretize(st, e(0))? as u64;
                let s = self.concretize(st, e(1))? as u64;
                let np = self.alloc(st, s, 16, false);
                if p != 0 {
                    let old = match st.mem.find(p) {
                        Some(o) if o.base == p => o.size,
                        _ => return Err(Stop::Fatal("realloc of a bad pointer".into())),
                    };
                    let a = self.cx.cv(np).unwrap() as u64;
                    self.copy_bytes(st, a, p, old.min(s))?;
                    st.mem.remove(p);
                }
                done(self, st, Val::E(np))
            }
            "free" => {
                let p = self.concretize(st, e(0))? as u64;
                if p != 0 {
                    let ok = matches!(st.mem.find(p), Some(o) if o.base == p && o.kind == Kind::Heap);
                    if !ok {
                        let loc = self.where_(st);
                        self.report(st, "memory", 0, "free of a bad pointer".into(), loc);
                        return Err(Stop::Dead);
                    }
                    st.mem.remove(p);
                }
                done(self, st, unit)
            }
            "bcmp" | "memcmp" => {
                let l = self.concretize(st, e(2))? as u64;
                let z = self.cx.k(32, 0);
                if l == 0 {
                    return done(self, st, Val::E(z));
                }
                let a = self.concretize(st, e(0))? as u64;
                let b = self.concretize(st, e(1))? as u64;
                let (oa, ob) = match (self.inb(st, a, l)?, self.inb(st, b, l)?) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Err(Stop::Fatal("memcmp out of bounds".into())),
                };
                let mut r = z;
                let one = self.cx.k(32, 1);
                let neg = self.cx.k(32, mask(32));
                for i in (0..l).rev() {
                    let x = oa.read(&mut self.cx, a - oa.base + i, 1);
                    let y = ob.read(&mut self.cx, b - ob.base + i, 1);
                    let eq = self.cx.eq(x, y);
                    let nz = if n == "bcmp" {
                        one
                    } else {
                        let lt = self.cx.cmp(Op::Ult, x, y);
                        self.cx.ite(lt, neg, one)
                    };
                    r = self.cx.ite(eq, r, nz);
                }
                done(self, st, Val::E(r))
            }
            "strlen" => {
                let p = self.concretize(st, e(0))? as u64;
                let mut i = 0;
                loop {
                    let ad = self.cx.k(64, (p + i) as u128);
                    let c = self.load_int(st, ad, 1)?;
                    if self.concretize(st, c)? == 0 {
                        break;
                    }
                    i += 1;
                }
                let v = self.cx.k(64, i as u128);
                done(self, st, Val::E(v))
            }
            "getenv" => {
                let z = self.cx.k(64, 0);
                done(self, st, Val::E(z))
            }
            "exit" | "_exit" => Err(Stop::Dead),
            "sqrtf" | "sqrt" => {
                let w = self.cx.w(e(0));
                let v = self.cx.funa(Op::FSqrt, e(0), 0, w);
                done(self, st, Val::E(v))
            }
            _ => Err(Stop::Fatal(format!("call of external function {}", n))),
        }
    }

    /// overflow test in a wider type unless the intervals decide it
    fn with_overflow(&mut self, op: Op, signed: bool, a: E, b: E) -> (E, E) {
        let w = self.cx.w(a);
        let r = self.cx.bin(op, a, b);
        let (ia, ib) = (self.cx.info[a as usize], self.cx.info[b as usize]);
        if signed {
            let (al, ah, bl, bh) = (ia.slo, ia.shi, ib.slo, ib.shi);
            let (lo, hi) = match op {
                Op::Add => (al.checked_add(bl), ah.checked_add(bh)),
                Op::Sub => (al.checked_sub(bh), ah.checked_sub(bl)),
                _ => {
                    let c = [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)];
                    if c.iter().all(|x| x.is_some()) {
                        (c.iter().map(|x| x.unwrap()).min(), c.iter().map(|x| x.unwrap()).max())
                    } else {
                        (None, None)
                    }
                }
            };
            let (mn, mx) = sfull(w);
            if let (Some(l), Some(h)) = (lo, hi) {
                if l >= mn && h <= mx {
                    return (r, self.cx.fls);
                }
            }
        } else {
            let ok = match op {
                Op::Add => ia.hi.checked_add(ib.hi).map(|x| x <= mask(w)).unwrap_or(false),
                Op::Sub => ia.lo >= ib.hi,
                _ => ia.hi.checked_mul(ib.hi).map(|x| x <= mask(w)).unwrap_or(false),
            };
            if ok {
                return (r, self.cx.fls);
            }
        }
        let ov = match (op, signed) {
            (Op::Sub, false) => self.cx.cmp(Op::Ult, a, b),
            (Op::Add, false) => {
                // a > MAX - b
                if let Some(k) = self.cx.cv(b) {
                    let lim = self.cx.k(w, mask(w) - k);
                    self.cx.cmp(Op::Ult, lim, a)
                } else {
                    self.cx.cmp(Op::Ult, r, a)
                }
            }
            _ => {
                let ww = match op {
                    Op::Mul => {
                        if w > 64 {
                            128
                        } else {
                            w * 2
                        }
                    }
                    _ => w + 1,
                };
                if w == 128 || (op == Op::Mul && w > 64) {
                    // u128 multiplication: overflow iff a != 0 and r / a != b
                    let z = self.cx.k(w, 0);
                    let az = self.cx.eq(a, z);
                    let one = self.cx.k(w, 1);
                    let safe = self.cx.ite(az, one, a);
                    let q = self.cx.bin(Op::UDiv, r, safe);
                    let ok = self.cx.eq(q, b);
                    let bad = self.cx.not(ok);
                    let naz = self.cx.not(az);
                    let ov = self.cx.and(bad, naz);
                    return (r, ov);
                }
                let (x, y) = if signed { (self.cx.sext(a, ww), self.cx.sext(b, ww)) } else { (self.cx.zext(a, ww), self.cx.zext(b, ww)) };
                let wide = self.cx.bin(op, x, y);
                let back = if signed { self.cx.sext(r, ww) } else { self.cx.zext(r, ww) };
                let eq = self.cx.eq(wide, back);
                self.cx.not(eq)
            }
        };
        (r, ov)
    }

    fn ctz(&mut self, a: E) -> E {
        let w = self.cx.w(a);
        let mut r = self.cx.k(w, w as u128);
        for i in (0..w).rev() {
            let b = self.cx.extract(a, i, 1);
            let k = self.cx.k(w, i as u128);
            r = self.cx.ite(b, k, r);
        }
        r
    }
    fn clz(&mut self, a: E) -> E {
        let w = self.cx.w(a);
        let mut r = self.cx.k(w, w as u128);
        for i in 0..w {
            let b = self.cx.extract(a, i, 1);
            let k = self.cx.k(w, (w - 1 - i) as u128);
            r = self.cx.ite(b, k, r);
        }
        r
    }

    fn pure(&mut self, b: &str, a: &[E], ret: &Ty) -> Option<Val> {
        let name = {
            // strip type suffixes
            let mut parts: Vec<&str> = b.split('.').collect();
            while parts.len() > 1 {
                let l = parts.last().unwrap();
                let is_ty = l.len() > 1 && (l.starts_with('i') || l.starts_with('f') || l.starts_with('p') || l.starts_with('v')) && l[1..].chars().all(|c| c.is_ascii_digit() || c == 'i' || c == 'f');
                if is_ty {
                    parts.pop();
                } else {
                    break;
                }
            }
            parts.join(".")
        };
        let cx = &mut self.cx;
        let pick = |cx: &mut Ctx, c: E, x: E, y: E| cx.ite(c, x, y);
        let r = match name.as_str() {
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let op = match &name[1..4] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let (r, o) = self.with_overflow(op, name.starts_with('s'), a[0], a[1]);
                return Some(Val::Agg(Rc::new(vec![Val::E(r), Val::E(o)])));
            }
            "uadd.sat" => {
                let (r, o) = self.with_overflow(Op::Add, false, a[0], a[1]);
                let w = self.cx.w(r);
                let m = self.cx.k(w, mask(w));
                self.cx.ite(o, m, r)
            }
            "usub.sat" => {
                let (r, o) = self.with_overflow(Op::Sub, false, a[0], a[1]);
                let w = self.cx.w(r);
                let z = self.cx.k(w, 0);
                self.cx.ite(o, z, r)
            }
            "sadd.sat" | "ssub.sat" => {
                let op = if name.starts_with("sadd") { Op::Add } else { Op::Sub };
                let (r, o) = self.with_overflow(op, true, a[0], a[1]);
                let cx = &mut self.cx;
                let w = cx.w(r);
                let z = cx.k(w, 0);
                let neg = cx.cmp(Op::Slt, a[0], z);
                let mx = cx.k(w, mask(w) >> 1);
                let mn = cx.k(w, 1u128 << (w - 1));
                let s = cx.ite(neg, mn, mx);
                cx.ite(o, s, r)
            }
            "umin" => {
                let c = cx.cmp(Op::Ult, a[0], a[1]);
                pick(cx, c, a[0], a[1])
            }
            "umax" => {
                let c = cx.cmp(Op::Ult, a[1], a[0]);
                pick(cx, c, a[0], a[1])
            }
            "smin" => {
                let c = cx.cmp(Op::Slt, a[0], a[1]);
                pick(cx, c, a[0], a[1])
            }
            "smax" => {
                let c = cx.cmp(Op::Slt, a[1], a[0]);
                pick(cx, c, a[0], a[1])
            }
            "abs" => {
                let w = cx.w(a[0]);
                let z = cx.k(w, 0);
                let c = cx.cmp(Op::Slt, a[0], z);
                let n = cx.bin(Op::Sub, z, a[0]);
                pick(cx, c, n, a[0])
            }
            "ucmp" | "scmp" => {
                let w = ret.width();
                let lt = cx.cmp(if name == "ucmp" { Op::Ult } else { Op::Slt }, a[0], a[1]);
                let eq = cx.eq(a[0], a[1]);
                let (m1, z, p1) = (cx.k(w, mask(w)), cx.k(w, 0), cx.k(w, 1));
                let x = cx.ite(eq, z, p1);
                cx.ite(lt, m1, x)
            }
            "ctpop" => {
                let w = cx.w(a[0]);
                let mut r = cx.k(w, 0);
                for i in 0..w {
                    let b = cx.extract(a[0], i, 1);
                    let z = cx.zext(b, w);
                    r = cx.bin(Op::Add, r, z);
                }
                r
            }
            "cttz" => {
                if let Some(v) = cx.cv(a[0]) {
                    let w = cx.w(a[0]);
                    let t = if v == 0 { w as u32 } else { v.trailing_zeros() };
                    cx.k(w, t as u128)
                } else {
                    self.ctz(a[0])
                }
            }
            "ctlz" => {
                if let Some(v) = cx.cv(a[0]) {
                    let w = cx.w(a[0]);
                    let t = if v == 0 { w as u32 } else { v.leading_zeros() - (128 - w as u32) };
                    cx.k(w, t as u128)
                } else {
                    self.clz(a[0])
                }
            }
            "bswap" => {
                let w = cx.w(a[0]);
                let n = w / 8;
                let mut r = cx.extract(a[0], 0, 8);
                for i in 1..n {
                    let x = cx.extract(a[0], i * 8, 8);
                    r = cx.concat(r, x);
                }
                r
            }
            "bitreverse" => {
                let w = cx.w(a[0]);
                let mut r = cx.extract(a[0], 0, 1);
                for i in 1..w {
                    let x = cx.extract(a[0], i, 1);
                    r = cx.concat(r, x);
                }
                r
            }
            "fshl" | "fshr" => {
                let w = cx.w(a[0]);
                let sh = cx.cv(a[2]);
                if let Some(s) = sh {
                    let s = (s % w as u128) as u8;
                    if s == 0 {
                        if name == "fshl" {
                            a[0]
                        } else {
                            a[1]
                        }
                    } else {
                        // concat(a0,a1); fshl takes the high word after << s, fshr the low word after >> s
                        let s = if name == "fshl" { s } else { w - s };
                        let hi = cx.extract(a[0], 0, w - s);
                        let lo = cx.extract(a[1], w - s, s);
                        cx.concat(hi, lo)
                    }
                } else if w <= 64 {
                    let wk = cx.k(w, w as u128);
                    let s = cx.bin(Op::URem, a[2], wk);
                    let c = cx.concat(a[0], a[1]);
                    let s2 = cx.zext(s, 2 * w);
                    if name == "fshl" {
                        let x = cx.bin(Op::Shl, c, s2);
                        cx.extract(x, w, w)
                    } else {
                        let x = cx.bin(Op::LShr, c, s2);
                        cx.extract(x, 0, w)
                    }
                } else {
                    return None;
                }
            }
            // of constants only, with the host's own library
            "cos" | "sin" => {
                let (w, v) = (cx.w(a[0]), cx.cv(a[0])?);
                let cos = name == "cos";
                let r = if w == 32 {
                    let x = f32::from_bits(v as u32);
                    (if cos { x.cos() } else { x.sin() }).to_bits() as u128
                } else {
                    let x = f64::from_bits(v as u64);
                    (if cos { x.cos() } else { x.sin() }).to_bits() as u128
                };
                cx.k(w, r)
            }
            "is.fpclass" => {
                // is.fpclass, by comparisons
                let (x, w, m) = (a[0], cx.w(a[0]), cx.cv(a[1])?);
                let (one, min) = if w == 32 { (0x7f80_0000u128, 0x0080_0000u128) } else { (0x7ff0_0000_0000_0000, 0x0010_0000_0000_0000) };
                let sign = 1u128 << (w - 1);
                let mut r = cx.fls;
                let between = |cx: &mut Ctx, lo: u128, hi: u128, closed: bool| {
                    let (l, h) = (cx.k(w, lo), cx.k(w, hi));
                    let p = cx.fbin(if closed { Op::FLe } else { Op::FLt }, l, x);
                    let q = cx.fbin(Op::FLt, x, h);
                    cx.and(p, q)
                };
                match m & 3 {
                    3 => r = cx.funa(Op::FNan, x, 0, 1),
                    0 => {}
                    _ => return None,
                }
                let mut add = |cx: &mut Ctx, t: E| r = cx.or(r, t);
                for (bits, neg) in [(m >> 7 & 7, false), ((m >> 2 & 1) << 2 | (m >> 3 & 1) << 1 | (m >> 4 & 1), true)] {
                    // subnormal, normal, infinite
                    let flip = |cx: &mut Ctx, lo: u128, hi: u128| {
                        if neg {
                            let (l, h) = (cx.k(w, hi | sign), cx.k(w, lo | sign));
                            let (p, q) = (cx.fbin(Op::FLt, l, x), if lo == min { cx.fbin(Op::FLe, x, h) } else { cx.fbin(Op::FLt, x, h) });
                            cx.and(p, q)
                        } else {
                            between(cx, lo, hi, lo == min)
                        }
                    };
                    if bits & 3 == 3 {
                        let t = flip(cx, 0, one);
                        add(cx, t);
                    } else if bits & 1 == 1 {
                        let t = flip(cx, 0, min);
                        add(cx, t);
                    } else if bits & 2 == 2 {
                        let t = flip(cx, min, one);
                        add(cx, t);
                    }
                    if bits & 4 == 4 {
                        let k = cx.k(w, if neg { one | sign } else { one });
                        let t = cx.fbin(Op::FEq, x, k);
                        add(cx, t);
                    }
                }
                let z = cx.k(w, 0);
                match m >> 5 & 3 {
                    3 => {
                        let t = cx.fbin(Op::FEq, x, z);
                        add(cx, t);
                    }
                    0 => {}
                    b => {
                        let k = cx.k(w, if b == 1 { sign } else { 0 });
                        let t = cx.bin(Op::Eq, x, k);
                        add(cx, t);
                    }
                }
                r
            }
            "fabs" => cx.fabs(a[0]),
            "sqrt" => {
                let w = cx.w(a[0]);
                cx.funa(Op::FSqrt, a[0], 0, w)
            }
            "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" | "round" => {
                let w = cx.w(a[0]);
                let m = match name.as_str() {
                    "floor" => 0,
                    "ceil" => 1,
                    "trunc" => 2,
                    "round" => 4,
                    _ => 3,
                };
                cx.funa(Op::FRnd, a[0], m, w)
            }
            "fma" | "fmuladd" => cx.fma(a[0], a[1], a[2]),
            "copysign" => {
                let w = cx.w(a[0]);
                let m = cx.extract(a[0], 0, w - 1);
                let s = cx.extract(a[1], w - 1, 1);
                cx.concat(s, m)
            }
            "fptosi.sat" => cx.funa(Op::FToS, a[0], 0, ret.width()),
            "fptoui.sat" => cx.funa(Op::FToU, a[0], 0, ret.width()),
            "minimumnum" | "minnum" | "maximumnum" | "maxnum" => {
                let min = name.starts_with("min");
                let na = cx.funa(Op::FNan, a[0], 0, 1);
                let nb = cx.funa(Op::FNan, a[1], 0, 1);
                let c = if min { cx.fbin(Op::FLt, a[1], a[0]) } else { cx.fbin(Op::FLt, a[0], a[1]) };
                let r = cx.ite(c, a[1], a[0]);
                let r = cx.ite(nb, a[0], r);
                cx.ite(na, a[1], r)
            }
            "canonicalize" => a[0],
            _ => return None,
        };
        Some(Val::E(r))
    }
}

impl Frame {
    #[inline]
    fn clone_light(&self) -> (Rc<Func>, u32, u32) {
        (self.f.clone(), self.blk, self.ip)
    }
}
