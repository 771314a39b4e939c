//! Parser for the textual LLVM IR that rustc emits (post link-time optimisation).

use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let s = (*n as u64) * t.size();
                s.next_power_of_two()
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if i == j {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    pub fn width(&self) -> u8 {
        match self {
            Ty::Int(w) => *w as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    E(E),
    Agg(Rc<Vec<Val>>),
}
impl Val {
    pub fn e(&self) -> E {
        match self {
            Val::E(e) => *e,
            _ => panic!("scalar expected"),
        }
    }
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::E(a), Val::E(b)) => a == b,
            (Val::Agg(a), Val::Agg(b)) => Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y))),
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Val),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, Opnd, Opnd),
    FBin(Op, Opnd, Opnd),
    FNeg(Opnd),
    ICmp(u8, Opnd, Opnd),
    FCmp(u8, Opnd, Opnd),
    Cast(u8, Opnd, Ty, Ty),
    Select(Opnd, Opnd, Opnd),
    Alloca(u64, u64),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, Vec<(Opnd, u64)>, i64),
    Call { callee: Callee, args: Vec<Opnd>, argtys: Vec<Ty>, ret: Ty },
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Opnd, Opnd, Vec<u32>),
    Copy(Opnd),
    ExtractElt(Opnd, Opnd),
    InsertElt(Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<u32>),
    AtomicRmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Nop,
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(String),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dest: Option<u32>,
    pub i: I,
    pub dbg: u32,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dest: u32,
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    // scheduling info
    pub order: u32,
    pub loops: Vec<u32>, // header orders outermost..innermost
    pub npreds: u32,
    pub live_in: Vec<u64>, // bitset after phis
}

pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}

pub struct GlobalDef {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: Ty,
    pub init: (usize, usize),
    pub is_const: bool,
    pub external: bool,
}

pub struct FnDef {
    pub name: String,
    pub addr: u64,
    pub body: Option<(usize, usize)>,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub globals: Vec<GlobalDef>,
    pub gmap: HashMap<String, usize>,
    pub fns: Vec<FnDef>,
    pub fmap: HashMap<String, usize>,
    pub fn_by_addr: HashMap<u64, usize>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub types: HashMap<String, (usize, usize)>,
    pub parsed: HashMap<usize, Rc<Func>>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x1000_0000_0000;
pub const GL_BASE: u64 = 0x2000_0000_0000;

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    CStr(&'a [u8]),
    Str,
    Meta(&'a str),
    P(u8),
}

fn lex<'a>(s: &'a [u8]) -> Vec<T<'a>> {
    let mut v = Vec::with_capacity(32);
    let mut i = 0;
    let n = s.len();
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
    fn st<'a>(x: &'a [u8]) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(x) }
    }
    while i < n {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'/' if s[i..].starts_with(b"/*") => {
                while i < n && !s[i..].starts_with(b"*/") {
                    i += 1
                }
                i += 2
            }
            b';' => {
                while i < n && s[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let k = c;
                i += 1;
                let (a, b);
                if i < n && s[i] == b'"' {
                    a = i + 1;
                    i += 1;
                    while s[i] != b'"' {
                        i += 1
                    }
                    b = i;
                    i += 1;
                } else {
                    a = i;
                    while i < n && isw(s[i]) {
                        i += 1
                    }
                    b = i;
                }
                v.push(if k == b'%' { T::Local(st(&s[a..b])) } else { T::Global(st(&s[a..b])) });
            }
            b'!' => {
                let a = i + 1;
                i += 1;
                if i < n && s[i] == b'"' {
                    i += 1;
                    while s[i] != b'"' {
                        i += 1
                    }
                    i += 1;
                    v.push(T::Meta(""));
                    continue;
                }
                while i < n && isw(s[i]) {
                    i += 1
                }
                v.push(T::Meta(st(&s[a..i])));
            }
            b'#' => {
                i += 1;
                while i < n && isw(s[i]) {
                    i += 1
                }
            }
            b'"' => {
                i += 1;
                while s[i] != b'"' {
                    i += 1
                }
                i += 1;
                v.push(T::Str);
            }
            b'c' if i + 1 < n && s[i + 1] == b'"' => {
                let a = i + 2;
                i += 2;
                while s[i] != b'"' {
                    i += 1
                }
                v.push(T::CStr(&s[a..i]));
                i += 1;
            }
            _ if isw(c) => {
                let a = i;
                while i < n && isw(s[i]) {
                    i += 1
                }
                v.push(T::Word(st(&s[a..i])));
            }
            _ => {
                v.push(T::P(c));
                i += 1;
            }
        }
    }
    v
}

fn decode_cstr(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

struct Pz<'a, 'm> {
    t: Vec<T<'a>>,
    i: usize,
    m: &'m Module,
    cx: &'m mut Ctx,
    regs: &'m mut HashMap<String, u32>,
}

type R<X> = Result<X, String>;

fn is_int_ty(w: &str) -> Option<u32> {
    let b = w.as_bytes();
    if b.len() >= 2 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

impl<'a, 'm> Pz<'a, 'm> {
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T<'a>> {
        let r = self.t.get(self.i).cloned().ok_or("eof".to_string());
        self.i += 1;
        r
    }
    fn p(&mut self, c: u8) -> R<()> {
        match self.next()? {
            T::P(x) if x == c => Ok(()),
            o => Err(format!("expected {} got {:?} at {}", c as char, o, self.i)),
        }
    }
    fn is_p(&self, c: u8) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Word(x)) if *x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> R<&'a str> {
        match self.next()? {
            T::Word(w) => Ok(w),
            o => Err(format!("expected word got {:?}", o)),
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => is_int_ty(w).is_some() || matches!(*w, "ptr" | "void" | "float" | "double" | "metadata" | "half" | "label"),
            Some(T::P(b'{')) | Some(T::P(b'[')) | Some(T::P(b'<')) => true,
            Some(T::Local(n)) => self.m.types.contains_key(*n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            T::Word(w) => {
                if let Some(n) = is_int_ty(w) {
                    return Ok(Ty::Int(n));
                }
                match w {
                    "ptr" => Ok(Ty::Ptr),
                    "void" => Ok(Ty::Void),
                    "float" => Ok(Ty::F32),
                    "double" => Ok(Ty::F64),
                    "metadata" => Ok(Ty::Meta),
                    "label" => Ok(Ty::Meta),
                    o => Err(format!("type {}", o)),
                }
            }
            T::P(b'{') => {
                let f = self.ty_list(b'}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            T::P(b'[') => {
                let n: u64 = self.word()?.parse().map_err(|_| "arr".to_string())?;
                self.word()?;
                let t = self.ty()?;
                self.p(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            T::P(b'<') => {
                if self.eat_p(b'{') {
                    let f = self.ty_list(b'}')?;
                    self.p(b'>')?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n: u32 = self.word()?.parse().map_err(|_| "vec".to_string())?;
                self.word()?;
                let t = self.ty()?;
                self.p(b'>')?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            T::Local(n) => {
                if let Some((a, b)) = self.m.types.get(n) {
                    let txt = self.m.text.clone();
                    let toks = lex(&txt[*a..*b]);
                    // lifetimes: parse eagerly with a nested parser
                    let mut q = Pz { t: toks, i: 0, m: self.m, cx: self.cx, regs: self.regs };
                    return q.ty();
                }
                Err(format!("named type {}", n))
            }
            o => Err(format!("type {:?}", o)),
        }
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.p(b',')?;
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn at_value(&self) -> bool {
        match self.peek() {
            Some(T::Local(_)) | Some(T::Global(_)) | Some(T::CStr(_)) | Some(T::Meta(_)) => true,
            Some(T::P(b'{')) | Some(T::P(b'[')) | Some(T::P(b'<')) => true,
            Some(T::Word(w)) => {
                let b = w.as_bytes()[0];
                b.is_ascii_digit()
                    || b == b'-'
                    || b == b'+'
                    || w.starts_with("f0x")
                    || w.starts_with("s0x")
                    || w.starts_with("u0x")
                    || matches!(*w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "splat" | "sub" | "add" | "trunc" | "bitcast" | "asm" | "nan" | "inf" | "qnan" | "snan" | "pinf" | "ninf")
            }
            _ => false,
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            if self.at_value() {
                return Ok(());
            }
            match self.peek() {
                Some(T::Word(w)) => {
                    let w = *w;
                    self.i += 1;
                    if w == "align" {
                        if self.is_p(b'(') {
                            self.skip_parens()?;
                        } else {
                            self.i += 1;
                        }
                        continue;
                    }
                    if self.is_p(b'(') {
                        self.skip_parens()?;
                    }
                }
                Some(T::Str) => {
                    self.i += 1;
                    if self.eat_p(b'=') {
                        self.i += 1;
                    }
                }
                o => return Err(format!("attr {:?}", o)),
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = t.nfields();
                let mut v = Vec::with_capacity(n);
                match t {
                    Ty::Struct(fs, _) => {
                        for f in fs.iter() {
                            let z = self.zero(f);
                            v.push(z)
                        }
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        let z = self.zero(e);
                        v = vec![z; n];
                    }
                    _ => {}
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Void | Ty::Meta => Val::E(self.cx.fls),
            _ => Val::E(self.cx.k(t.width(), 0)),
        }
    }
    fn opnd(&mut self, t: &Ty) -> R<Opnd> {
        if let Some(T::Local(n)) = self.peek() {
            let n = *n;
            self.i += 1;
            return Ok(Opnd::Reg(self.reg(n)));
        }
        Ok(Opnd::K(self.cval(t)?))
    }
    fn float_bits(&self, w: &str, t: &Ty) -> R<u128> {
        let hexd = |s: &str| u64::from_str_radix(s, 16).map_err(|e| e.to_string());
        if let Some(h) = w.strip_prefix("f0x") {
            return Ok(hexd(h)? as u128);
        }
        if let Some(h) = w.strip_prefix("0x") {
            let b = hexd(h)?;
            return Ok(match t {
                Ty::F32 => (f64::from_bits(b) as f32).to_bits() as u128,
                _ => b as u128,
            });
        }
        let neg = w.starts_with('-');
        let body = w.trim_start_matches(['-', '+']);
        let v: f64 = match body {
            "inf" | "pinf" => f64::INFINITY,
            "ninf" => f64::NEG_INFINITY,
            "nan" | "qnan" => f64::NAN,
            _ => {
                if *t == Ty::F32 {
                    if let Ok(x) = w.parse::<f32>() {
                        return Ok(x.to_bits() as u128);
                    }
                }
                w.parse::<f64>().map_err(|e| format!("float {} {}", w, e))?
            }
        };
        let v = if neg && !body.as_bytes()[0].is_ascii_digit() { -v } else { v };
        Ok(match t {
            Ty::F32 => (v as f32).to_bits() as u128,
            _ => v.to_bits() as u128,
        })
    }
    fn sym_addr(&self, n: &str) -> R<u64> {
        if let Some(g) = self.m.gmap.get(n) {
            return Ok(self.m.globals[*g].addr);
        }
        if let Some(f) = self.m.fmap.get(n) {
            return Ok(self.m.fns[*f].addr);
        }
        if let Some(a) = self.m.aliases.get(n) {
            return self.sym_addr(a);
        }
        Err(format!("unknown symbol {}", n))
    }
    fn cval(&mut self, t: &Ty) -> R<Val> {
        match self.next()? {
            T::Word(w) => match w {
                "true" => Ok(Val::E(self.cx.tru)),
                "false" => Ok(Val::E(self.cx.fls)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(self.zero(t)),
                "getelementptr" => {
                    while let Some(T::Word(w)) = self.peek() {
                        let _ = w;
                        self.i += 1;
                        // e.g. inrange(-16, 8)
                        if self.is_p(b'(') {
                            // distinguish the operand list: previous word was inrange
                            if let T::Word("inrange") = self.t[self.i - 1] {
                                self.skip_parens()?;
                            } else {
                                break;
                            }
                        }
                    }
                    self.p(b'(')?;
                    let bt = self.ty()?;
                    self.p(b',')?;
                    let pt = self.ty()?;
                    let base = self.cval(&pt)?;
                    let mut addr = self.cx.cv(base.e()).unwrap() as u64 as i64;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat_p(b',') {
                        let it = self.ty()?;
                        let v = self.cval(&it)?;
                        let k = crate::expr::sext(self.cx.cv(v.e()).unwrap(), it.width()) as i64;
                        if first {
                            addr += k * cur.size() as i64;
                            first = false;
                        } else {
                            let (o, ft) = cur.field_off(k as usize);
                            addr += o as i64;
                            cur = ft;
                        }
                    }
                    self.p(b')')?;
                    Ok(Val::E(self.cx.k(64, addr as u64 as u128)))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "bitcast" => {
                    self.p(b'(')?;
                    let st = self.ty()?;
                    let v = self.cval(&st)?;
                    self.word()?;
                    let dt = self.ty()?;
                    self.p(b')')?;
                    let k = self.cx.cv(v.e()).unwrap();
                    Ok(Val::E(self.cx.k(dt.width(), k)))
                }
                "sub" | "add" => {
                    while let Some(T::Word(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.p(b'(')?;
                    let at = self.ty()?;
                    let a = self.cval(&at)?;
                    self.p(b',')?;
                    let bt = self.ty()?;
                    let b = self.cval(&bt)?;
                    self.p(b')')?;
                    Ok(Val::E(self.cx.bin(if w == "sub" { Op::Sub } else { Op::Add }, a.e(), b.e())))
                }
                "splat" => {
                    self.p(b'(')?;
                    let et = self.ty()?;
                    let v = self.cval(&et)?;
                    self.p(b')')?;
                    Ok(Val::Agg(Rc::new(vec![v; t.nfields()])))
                }
                _ => match t {
                    Ty::Int(w_) => {
                        if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                            let v = u128::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            return Ok(Val::E(self.cx.k(*w_ as u8, v)));
                        }
                        let v: i128 = match w.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => w.parse::<u128>().map_err(|_| format!("int {}", w))? as i128,
                        };
                        Ok(Val::E(self.cx.k(*w_ as u8, v as u128)))
                    }
                    Ty::F32 | Ty::F64 => {
                        let b = self.float_bits(w, t)?;
                        Ok(Val::E(self.cx.k(t.width(), b)))
                    }
                    _ => Err(format!("const {} for {:?}", w, t)),
                },
            },
            T::Global(n) => {
                let a = self.sym_addr(n)?;
                Ok(Val::E(self.cx.k(64, a as u128)))
            }
            T::CStr(s) => {
                let b = decode_cstr(s);
                let v: Vec<Val> = b.iter().map(|x| Val::E(self.cx.k(8, *x as u128))).collect();
                Ok(Val::Agg(Rc::new(v)))
            }
            T::P(b'{') => self.agg(b'}'),
            T::P(b'[') => self.agg(b']'),
            T::P(b'<') => {
                if self.eat_p(b'{') {
                    let r = self.agg(b'}')?;
                    self.p(b'>')?;
                    return Ok(r);
                }
                self.agg(b'>')
            }
            T::Meta(_) => Ok(Val::E(self.cx.fls)),
            o => Err(format!("value {:?}", o)),
        }
    }
    fn agg(&mut self, end: u8) -> R<Val> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(Val::Agg(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.cval(&t)?);
            if self.eat_p(end) {
                return Ok(Val::Agg(Rc::new(v)));
            }
            self.p(b',')?;
        }
    }
    fn tyopnd(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let o = self.opnd(&t)?;
        Ok((t, o))
    }
    fn find_dbg(&self) -> u32 {
        let mut j = self.t.len();
        while j > 1 {
            j -= 1;
            if let T::Meta("dbg") = self.t[j] {
                if let Some(T::Meta(n)) = self.t.get(j + 1) {
                    return n.parse().unwrap_or(0);
                }
            }
        }
        0
    }
    fn label(&mut self) -> R<String> {
        // "label %x"
        self.word()?;
        match self.next()? {
            T::Local(n) => Ok(n.to_string()),
            o => Err(format!("label {:?}", o)),
        }
    }
}

pub const ICMP: [&str; 10] = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];
pub const FCMP: [&str; 16] = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
pub const CASTS: [&str; 13] = ["zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoaddr"];

fn is_flag(w: &str) -> bool {
    matches!(
        w,
        "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "inrange"
    )
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = Rc::new(std::fs::read(path).map_err(|e| e.to_string())?);
        let mut m = Module {
            text: text.clone(),
            globals: vec![],
            gmap: Default::default(),
            fns: vec![],
            fmap: Default::default(),
            fn_by_addr: Default::default(),
            meta: Default::default(),
            types: Default::default(),
            parsed: Default::default(),
            aliases: Default::default(),
        };
        let s = &text[..];
        let mut i = 0;
        let n = s.len();
        let mut gl: Vec<(usize, usize)> = vec![];
        while i < n {
            let mut e = i;
            while e < n && s[e] != b'\n' {
                e += 1;
            }
            let line = &s[i..e];
            if line.starts_with(b"@") {
                gl.push((i, e));
            } else if line.starts_with(b"define ") {
                let st = i;
                let mut j = e + 1;
                loop {
                    let mut k = j;
                    while k < n && s[k] != b'\n' {
                        k += 1;
                    }
                    if &s[j..k] == b"}" {
                        e = k;
                        break;
                    }
                    j = k + 1;
                }
                let hdr_end = {
                    let mut k = st;
                    while s[k] != b'\n' {
                        k += 1
                    }
                    k
                };
                let name = fn_name(&s[st..hdr_end])?;
                m.add_fn(name, Some((st, e)));
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line)?;
                m.add_fn(name, None);
            } else if line.starts_with(b"!") {
                let mut j = 1;
                let mut k = 0u32;
                while j < line.len() && line[j].is_ascii_digit() {
                    k = k * 10 + (line[j] - b'0') as u32;
                    j += 1;
                }
                if j > 1 {
                    m.meta.insert(k, (i + j + 3, e));
                }
            } else if line.starts_with(b"%") {
                let l = unsafe { std::str::from_utf8_unchecked(line) };
                if let Some(p) = l.find(" = type ") {
                    let nm = l[1..p].trim_matches('"').to_string();
                    m.types.insert(nm, (i + p + 8, e));
                }
            }
            i = e + 1;
        }
        // globals: two phases so that initialisers may refer to any symbol
        let mut cx = Ctx::new();
        let mut addr = GL_BASE;
        for (a, b) in gl {
            let line = &s[a..b];
            let toks = lex(line);
            let name = match &toks[0] {
                T::Global(n) => n.to_string(),
                _ => return Err("global".into()),
            };
            let mut regs = HashMap::new();
            let mut p = Pz { t: toks, i: 2, m: &m, cx: &mut cx, regs: &mut regs };
            let mut external = false;
            let mut is_const = false;
            let mut alias = false;
            loop {
                match p.next()? {
                    T::Word("constant") => {
                        is_const = true;
                        break;
                    }
                    T::Word("global") => break,
                    T::Word("alias") => {
                        alias = true;
                        break;
                    }
                    T::Word("external") | T::Word("extern_weak") => external = true,
                    T::Word(_) => {
                        if p.is_p(b'(') {
                            p.skip_parens()?;
                        }
                    }
                    _ => {}
                }
            }
            if alias {
                let mut tgt = None;
                for t in &p.t[p.i..] {
                    if let T::Global(g) = t {
                        tgt = Some(g.to_string());
                    }
                }
                if let Some(t) = tgt {
                    m.aliases.insert(name, t);
                }
                continue;
            }
            let ty = p.ty()?;
            let size = ty.size();
            let al = ty.align().max(16);
            addr = (addr + al - 1) / al * al;
            let g = GlobalDef { name: name.clone(), addr, size, ty, init: (a, b), is_const, external };
            addr += size.max(1) + 32;
            let gi = m.globals.len();
            m.globals.push(g);
            m.gmap.insert(name, gi);
        }
        Ok(m)
    }
    fn add_fn(&mut self, name: String, body: Option<(usize, usize)>) {
        let addr = FN_BASE + (self.fns.len() as u64) * 16;
        let i = self.fns.len();
        self.fn_by_addr.insert(addr, i);
        self.fmap.insert(name.clone(), i);
        self.fns.push(FnDef { name, addr, body });
    }
    /// initial value of a global
    pub fn global_init(&self, gi: usize, cx: &mut Ctx) -> R<Option<Val>> {
        let g = &self.globals[gi];
        if g.external {
            return Ok(None);
        }
        let text = self.text.clone();
        let toks = lex(&text[g.init.0..g.init.1]);
        let mut regs = HashMap::new();
        let mut p = Pz { t: toks, i: 2, m: self, cx, regs: &mut regs };
        loop {
            match p.next()? {
                T::Word("constant") | T::Word("global") => break,
                T::Word(_) => {
                    if p.is_p(b'(') {
                        p.skip_parens()?;
                    }
                }
                _ => {}
            }
        }
        let ty = p.ty()?;
        Ok(Some(p.cval(&ty)?))
    }
    pub fn func(&mut self, fi: usize, cx: &mut Ctx) -> R<Rc<Func>> {
        if let Some(f) = self.parsed.get(&fi) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.parse_func(fi, cx)?);
        self.parsed.insert(fi, f.clone());
        Ok(f)
    }
    fn parse_func(&self, fi: usize, cx: &mut Ctx) -> R<Func> {
        let (a, b) = self.fns[fi].body.ok_or("no body")?;
        let text = self.text.clone();
        let s = &text[a..b];
        let mut lines: Vec<(usize, usize)> = vec![];
        {
            let mut i = 0;
            while i < s.len() {
                let mut e = i;
                while e < s.len() && s[e] != b'\n' {
                    e += 1;
                }
                let l = &s[i..e];
                let cont = l.starts_with(b"   ") || l.starts_with(b"  ]");
                if cont && lines.len() > 1 {
                    let k = lines.len() - 1;
                    lines[k].1 = e;
                } else if !l.is_empty() {
                    lines.push((i, e));
                }
                i = e + 1;
            }
        }
        let mut regs: HashMap<String, u32> = HashMap::new();
        // header
        let hdr = lex(&s[lines[0].0..lines[0].1]);
        let mut p = Pz { t: hdr, i: 1, m: self, cx, regs: &mut regs };
        // skip linkage etc. up to the return type
        while !p.at_type() {
            match p.next()? {
                T::Word("align") => {
                    if p.is_p(b'(') {
                        p.skip_parens()?
                    } else {
                        p.i += 1
                    }
                }
                _ => {
                    if p.is_p(b'(') {
                        p.skip_parens()?
                    }
                }
            }
        }
        let ret = p.ty()?;
        let name = match p.next()? {
            T::Global(n) => n.to_string(),
            o => return Err(format!("fn header {:?}", o)),
        };
        p.p(b'(')?;
        let mut params = vec![];
        let mut pi = 0;
        if !p.eat_p(b')') {
            loop {
                if p.is_p(b'.') || p.is_w("...") {
                    p.i += 1;
                    p.p(b')')?;
                    break;
                }
                let t = p.ty()?;
                // attributes until local / , / )
                loop {
                    match p.peek() {
                        Some(T::Local(_)) | Some(T::P(b',')) | Some(T::P(b')')) => break,
                        Some(T::Word("align")) => {
                            p.i += 1;
                            if p.is_p(b'(') {
                                p.skip_parens()?
                            } else {
                                p.i += 1
                            }
                        }
                        Some(T::Word(_)) => {
                            p.i += 1;
                            if p.is_p(b'(') {
                                p.skip_parens()?;
                            }
                        }
                        Some(T::Str) => p.i += 1,
                        o => return Err(format!("param {:?}", o)),
                    }
                }
                let nm = if let Some(T::Local(n)) = p.peek() {
                    let n = n.to_string();
                    p.i += 1;
                    n
                } else {
                    let n = pi.to_string();
                    n
                };
                if nm.bytes().all(|c| c.is_ascii_digit()) {
                    pi = nm.parse::<u32>().unwrap() + 1;
                }
                let r = p.reg(&nm);
                params.push((r, t));
                if p.eat_p(b')') {
                    break;
                }
                p.p(b',')?;
            }
        }
        // labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let is_label = |l: &[u8]| -> Option<String> {
            if l.starts_with(b" ") {
                return None;
            }
            let st = std::str::from_utf8(l).ok()?;
            let q = st.find(':')?;
            Some(st[..q].trim_matches('"').to_string())
        };
        let mut first_is_label = false;
        for (k, (x, y)) in lines[1..].iter().enumerate() {
            if let Some(l) = is_label(&s[*x..*y]) {
                if k == 0 {
                    first_is_label = true;
                } else if nb == 0 {
                    labels.insert(pi.to_string(), 0);
                    nb = 1;
                }
                labels.insert(l, nb);
                nb += 1;
            }
        }
        if nb == 0 {
            labels.insert(pi.to_string(), 0);
        }
        let mut blocks: Vec<Block> = vec![];
        if !first_is_label {
            blocks.push(Block::default());
        }
        for (x, y) in &lines[1..] {
            let l = &s[*x..*y];
            if is_label(l).is_some() {
                blocks.push(Block::default());
                continue;
            }
            let bi = blocks.len() - 1;
            let toks = lex(l);
            if toks.is_empty() {
                continue;
            }
            let mut p = Pz { t: toks, i: 0, m: self, cx, regs: &mut regs };
            match parse_inst(&mut p, &labels) {
                Ok(PI::Inst(v)) => blocks[bi].insts.extend(v),
                Ok(PI::Phi(ph)) => blocks[bi].phis.push(ph),
                Err(e) => {
                    let txt = String::from_utf8_lossy(l).to_string();
                    blocks[bi].insts.push(Inst { dest: None, i: I::Bad(format!("{} in `{}`", e, txt.chars().take(200).collect::<String>())), dbg: 0 });
                }
            }
        }
        let mut f = Func { name, params, ret, blocks, nregs: regs.len() as u32 };
        analyse(&mut f);
        Ok(f)
    }
    /// (file, line, function) chain for a debug location id, innermost first
    pub fn dbg_chain(&self, id: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = id;
        for _ in 0..64 {
            let Some(t) = self.meta_text(cur) else { break };
            if !t.contains("DILocation(") {
                break;
            }
            let line = field_num(t, "line: ").unwrap_or(0);
            let mut scope = field_ref(t, "scope: ");
            let mut func = String::new();
            let mut file = String::new();
            for _ in 0..32 {
                let Some(sc) = scope else { break };
                let Some(st) = self.meta_text(sc) else { break };
                if file.is_empty() {
                    if let Some(fr) = field_ref(st, "file: ") {
                        if let Some(ft) = self.meta_text(fr) {
                            file = field_str(ft, "filename: ").unwrap_or_default();
                            if !file.starts_with('/') {
                                if let Some(d) = field_str(ft, "directory: ") {
                                    file = format!("{}/{}", d, file);
                                }
                            }
                        }
                    }
                }
                if st.contains("DISubprogram(") {
                    func = field_str(st, " name: ").or(field_str(st, "(name: ")).unwrap_or_default();
                    break;
                }
                scope = field_ref(st, "scope: ");
            }
            out.push((file, line, func));
            match field_ref(t, "inlinedAt: ") {
                Some(n) => cur = n,
                None => break,
            }
        }
        out
    }
    fn meta_text(&self, id: u32) -> Option<&str> {
        let (a, b) = self.meta.get(&id)?;
        Some(unsafe { std::str::from_utf8_unchecked(&self.text[*a..*b]) })
    }
}
fn field_num(t: &str, k: &str) -> Option<u32> {
    let i = t.find(k)? + k.len();
    let r: String = t[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}
fn field_ref(t: &str, k: &str) -> Option<u32> {
    let i = t.find(k)? + k.len();
    let t = &t[i..];
    if !t.starts_with('!') {
        return None;
    }
    let r: String = t[1..].chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}
fn field_str(t: &str, k: &str) -> Option<String> {
    let i = t.find(k)? + k.len();
    let t = &t[i..];
    let t = t.strip_prefix('"')?;
    Some(t[..t.find('"')?].to_string())
}

fn fn_name(line: &[u8]) -> R<String> {
    for t in lex(line) {
        if let T::Global(n) = t {
            return Ok(n.to_string());
        }
    }
    Err("fn name".into())
}

enum PI {
    Inst(Vec<Inst>),
    Phi(Phi),
}

fn parse_inst(p: &mut Pz, labels: &HashMap<String, u32>) -> R<PI> {
    let dbg = p.find_dbg();
    let mut dest = None;
    if let Some(T::Local(n)) = p.peek() {
        if p.t.get(1) == Some(&T::P(b'=')) {
            let n = *n;
            dest = Some(p.reg(n));
            p.i = 2;
        }
    }
    let lab = |l: String| labels.get(&l).copied().ok_or(format!("label {}", l));
    let mut w = p.word()?;
    if matches!(w, "tail" | "musttail" | "notail") {
        w = p.word()?;
    }
    let one = |i: I| Ok(PI::Inst(vec![Inst { dest, i, dbg }]));
    let flags = |p: &mut Pz| {
        while let Some(T::Word(w)) = p.peek() {
            if is_flag(w) {
                p.i += 1;
                if p.is_p(b'(') {
                    let _ = p.skip_parens();
                }
            } else {
                break;
            }
        }
    };
    let iop = match w {
        "add" => Some(Op::Add),
        "sub" => Some(Op::Sub),
        "mul" => Some(Op::Mul),
        "udiv" => Some(Op::UDiv),
        "sdiv" => Some(Op::SDiv),
        "urem" => Some(Op::URem),
        "srem" => Some(Op::SRem),
        "and" => Some(Op::And),
        "or" => Some(Op::Or),
        "xor" => Some(Op::Xor),
        "shl" => Some(Op::Shl),
        "lshr" => Some(Op::LShr),
        "ashr" => Some(Op::AShr),
        _ => None,
    };
    if let Some(op) = iop {
        flags(p);
        let (t, a) = p.tyopnd()?;
        p.p(b',')?;
        let b = p.opnd(&t)?;
        return one(I::Bin(op, a, b));
    }
    let fop = match w {
        "fadd" => Some(Op::FAdd),
        "fsub" => Some(Op::FSub),
        "fmul" => Some(Op::FMul),
        "fdiv" => Some(Op::FDiv),
        "frem" => Some(Op::FRem),
        _ => None,
    };
    if let Some(op) = fop {
        flags(p);
        let (t, a) = p.tyopnd()?;
        p.p(b',')?;
        let b = p.opnd(&t)?;
        return one(I::FBin(op, a, b));
    }
    if let Some(k) = CASTS.iter().position(|x| *x == w) {
        flags(p);
        let (t, a) = p.tyopnd()?;
        p.word()?;
        let to = p.ty()?;
        return one(I::Cast(k as u8, a, t, to));
    }
    match w {
        "fneg" => {
            flags(p);
            let (_, a) = p.tyopnd()?;
            one(I::FNeg(a))
        }
        "icmp" => {
            flags(p);
            let pr = p.word()?;
            let k = ICMP.iter().position(|x| *x == pr).ok_or("icmp pred")?;
            let (t, a) = p.tyopnd()?;
            p.p(b',')?;
            let b = p.opnd(&t)?;
            one(I::ICmp(k as u8, a, b))
        }
        "fcmp" => {
            flags(p);
            let pr = p.word()?;
            let k = FCMP.iter().position(|x| *x == pr).ok_or("fcmp pred")?;
            let (t, a) = p.tyopnd()?;
            p.p(b',')?;
            let b = p.opnd(&t)?;
            one(I::FCmp(k as u8, a, b))
        }
        "select" => {
            flags(p);
            let (_, c) = p.tyopnd()?;
            p.p(b',')?;
            let (_, a) = p.tyopnd()?;
            p.p(b',')?;
            let (_, b) = p.tyopnd()?;
            one(I::Select(c, a, b))
        }
        "freeze" => {
            let (_, a) = p.tyopnd()?;
            one(I::Copy(a))
        }
        "alloca" => {
            flags(p);
            let t = p.ty()?;
            let mut n = 1u64;
            let mut al = t.align();
            while p.eat_p(b',') {
                if p.eat_w("align") {
                    al = p.word()?.parse().map_err(|_| "align".to_string())?;
                } else if p.at_type() {
                    let (_, o) = p.tyopnd()?;
                    if let Opnd::K(v) = o {
                        n = p.cx.cv(v.e()).unwrap() as u64;
                    } else {
                        return Err("dynamic alloca".into());
                    }
                } else {
                    break;
                }
            }
            one(I::Alloca(t.size() * n, al))
        }
        "load" => {
            p.eat_w("atomic");
            flags(p);
            let t = p.ty()?;
            p.p(b',')?;
            let (_, a) = p.tyopnd()?;
            one(I::Load(t, a))
        }
        "store" => {
            p.eat_w("atomic");
            flags(p);
            let (t, v) = p.tyopnd()?;
            p.p(b',')?;
            let (_, a) = p.tyopnd()?;
            one(I::Store(t, v, a))
        }
        "fence" => one(I::Nop),
        "getelementptr" => {
            flags(p);
            let bt = p.ty()?;
            p.p(b',')?;
            let (_, base) = p.tyopnd()?;
            let mut cur = bt;
            let mut first = true;
            let mut off = 0i64;
            let mut terms = vec![];
            while p.is_p(b',') {
                if let Some(T::Meta(_)) = p.t.get(p.i + 1) {
                    break;
                }
                p.i += 1;
                let (it, o) = p.tyopnd()?;
                if first {
                    first = false;
                    let sz = cur.size();
                    match &o {
                        Opnd::K(v) => off = off.wrapping_add((crate::expr::sext(p.cx.cv(v.e()).unwrap(), it.width()) as i64).wrapping_mul(sz as i64)),
                        _ => terms.push((o, sz)),
                    }
                } else {
                    match (&cur.clone(), &o) {
                        (Ty::Struct(..), Opnd::K(v)) => {
                            let (fo, ft) = cur.field_off(p.cx.cv(v.e()).unwrap() as usize);
                            off += fo as i64;
                            cur = ft;
                        }
                        (Ty::Arr(_, t), _) | (Ty::Vec(_, t), _) => {
                            let sz = t.size();
                            match &o {
                                Opnd::K(v) => off = off.wrapping_add((crate::expr::sext(p.cx.cv(v.e()).unwrap(), it.width()) as i64).wrapping_mul(sz as i64)),
                                _ => terms.push((o, sz)),
                            }
                            cur = (**t).clone();
                        }
                        _ => return Err("gep".into()),
                    }
                }
            }
            one(I::Gep(base, terms, off))
        }
        "extractvalue" => {
            let (_, a) = p.tyopnd()?;
            let mut ix = vec![];
            while p.eat_p(b',') {
                match p.peek() {
                    Some(T::Word(w)) => {
                        ix.push(w.parse().map_err(|_| "ix".to_string())?);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            one(I::ExtractValue(a, ix))
        }
        "insertvalue" => {
            let (_, a) = p.tyopnd()?;
            p.p(b',')?;
            let (_, v) = p.tyopnd()?;
            let mut ix = vec![];
            while p.eat_p(b',') {
                match p.peek() {
                    Some(T::Word(w)) => {
                        ix.push(w.parse().map_err(|_| "ix".to_string())?);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            one(I::InsertValue(a, v, ix))
        }
        "extractelement" => {
            let (_, a) = p.tyopnd()?;
            p.p(b',')?;
            let (_, b) = p.tyopnd()?;
            one(I::ExtractElt(a, b))
        }
        "insertelement" => {
            let (_, a) = p.tyopnd()?;
            p.p(b',')?;
            let (_, v) = p.tyopnd()?;
            p.p(b',')?;
            let (_, b) = p.tyopnd()?;
            one(I::InsertElt(a, v, b))
        }
        "shufflevector" => {
            let (_, a) = p.tyopnd()?;
            p.p(b',')?;
            let (_, b) = p.tyopnd()?;
            p.p(b',')?;
            let mt = p.ty()?;
            let m = p.cval(&mt)?;
            let idx = match m {
                Val::Agg(v) => v.iter().map(|x| p.cx.cv(x.e()).unwrap() as u32).collect(),
                _ => return Err("mask".into()),
            };
            one(I::Shuffle(a, b, idx))
        }
        "phi" => {
            flags(p);
            let t = p.ty()?;
            let mut inc = vec![];
            loop {
                p.p(b'[')?;
                let v = p.opnd(&t)?;
                p.p(b',')?;
                let l = match p.next()? {
                    T::Local(n) => n.to_string(),
                    o => return Err(format!("phi {:?}", o)),
                };
                p.p(b']')?;
                inc.push((lab(l)?, v));
                if !p.is_p(b',') {
                    break;
                }
                if let Some(T::P(b'[')) = p.t.get(p.i + 1) {
                    p.i += 1;
                } else {
                    break;
                }
            }
            Ok(PI::Phi(Phi { dest: dest.ok_or("phi")?, inc }))
        }
        "br" => {
            if p.is_w("label") {
                let l = p.label()?;
                return one(I::Br(lab(l)?));
            }
            let (_, c) = p.tyopnd()?;
            p.p(b',')?;
            let a = p.label()?;
            p.p(b',')?;
            let b = p.label()?;
            one(I::CondBr(c, lab(a)?, lab(b)?))
        }
        "switch" => {
            let (t, v) = p.tyopnd()?;
            p.p(b',')?;
            let d = p.label()?;
            p.p(b'[')?;
            let mut cases = vec![];
            while !p.eat_p(b']') {
                let ct = p.ty()?;
                let c = p.cval(&ct)?;
                p.p(b',')?;
                let l = p.label()?;
                cases.push((p.cx.cv(c.e()).unwrap(), lab(l)?));
            }
            let _ = t;
            one(I::Switch(v, lab(d)?, cases))
        }
        "ret" => {
            if p.eat_w("void") {
                return one(I::Ret(None));
            }
            let (_, v) = p.tyopnd()?;
            one(I::Ret(Some(v)))
        }
        "unreachable" | "resume" => one(I::Unreachable),
        "landingpad" => one(I::Bad("landingpad".into())),
        "call" | "invoke" => {
            // skip to the type
            flags(p);
            while !p.at_type() {
                match p.next()? {
                    T::Word("align") => {
                        if p.is_p(b'(') {
                            p.skip_parens()?
                        } else {
                            p.i += 1
                        }
                    }
                    T::Word(_) => {
                        if p.is_p(b'(') {
                            p.skip_parens()?
                        }
                    }
                    T::Str => {}
                    o => return Err(format!("call {:?}", o)),
                }
            }
            let ret = p.ty()?;
            if p.is_p(b'(') {
                p.skip_parens()?; // function type for varargs
            }
            let callee = match p.next()? {
                T::Global(n) => Callee::Fn(n.to_string()),
                T::Local(n) => Callee::Ind(Opnd::Reg(p.reg(n))),
                T::Word("asm") => {
                    while !p.is_p(b'(') {
                        p.i += 1;
                    }
                    Callee::Asm
                }
                T::Word("inttoptr") => {
                    p.i -= 1;
                    let v = p.cval(&Ty::Ptr)?;
                    Callee::Ind(Opnd::K(v))
                }
                o => return Err(format!("callee {:?}", o)),
            };
            p.p(b'(')?;
            let mut args = vec![];
            let mut argtys = vec![];
            let meta_ok = matches!(&callee, Callee::Fn(n) if n.starts_with("llvm."));
            if !p.eat_p(b')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Meta && meta_ok {
                        // skip metadata operand
                        let mut d = 0;
                        loop {
                            match p.peek() {
                                Some(T::P(b'(')) | Some(T::P(b'{')) => d += 1,
                                Some(T::P(b')')) | Some(T::P(b'}')) if d > 0 => d -= 1,
                                Some(T::P(b')')) | Some(T::P(b',')) if d == 0 => break,
                                None => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push(Opnd::K(Val::E(p.cx.fls)));
                        argtys.push(Ty::Meta);
                    } else {
                        p.skip_attrs()?;
                        let o = p.opnd(&t)?;
                        args.push(o);
                        argtys.push(t);
                    }
                    if p.eat_p(b')') {
                        break;
                    }
                    p.p(b',')?;
                }
            }
            let call = Inst { dest, i: I::Call { callee, args, argtys, ret }, dbg };
            if w == "invoke" {
                // find "to label %x"
                while !(p.is_w("to")) {
                    p.i += 1;
                    if p.i >= p.t.len() {
                        return Err("invoke".into());
                    }
                }
                p.i += 1;
                let l = p.label()?;
                return Ok(PI::Inst(vec![call, Inst { dest: None, i: I::Br(lab(l)?), dbg }]));
            }
            Ok(PI::Inst(vec![call]))
        }
        "atomicrmw" => {
            flags(p);
            let op = p.word()?.to_string();
            let (_, a) = p.tyopnd()?;
            p.p(b',')?;
            let (t, v) = p.tyopnd()?;
            one(I::AtomicRmw(op, t, a, v))
        }
        "cmpxchg" => {
            p.eat_w("weak");
            flags(p);
            let (_, a) = p.tyopnd()?;
            p.p(b',')?;
            let (t, c) = p.tyopnd()?;
            p.p(b',')?;
            let (_, n) = p.tyopnd()?;
            one(I::CmpXchg(t, a, c, n))
        }
        o => Err(format!("unknown instruction {}", o)),
    }
}

pub fn for_each_use(i: &I, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opnd| {
        if let Opnd::Reg(r) = x {
            f(*r)
        }
    };
    match i {
        I::Bin(_, a, b) | I::FBin(_, a, b) | I::ICmp(_, a, b) | I::FCmp(_, a, b) | I::Store(_, a, b) | I::InsertValue(a, b, _) | I::ExtractElt(a, b) | I::Shuffle(a, b, _) | I::AtomicRmw(_, _, a, b) => {
            o(a);
            o(b)
        }
        I::FNeg(a) | I::Cast(_, a, _, _) | I::Load(_, a) | I::ExtractValue(a, _) | I::Copy(a) => o(a),
        I::Select(a, b, c) | I::InsertElt(a, b, c) | I::CmpXchg(_, a, b, c) => {
            o(a);
            o(b);
            o(c)
        }
        I::Gep(a, t, _) => {
            o(a);
            for (x, _) in t {
                o(x)
            }
        }
        I::Call { callee, args, .. } => {
            if let Callee::Ind(x) = callee {
                o(x)
            }
            for a in args {
                o(a)
            }
        }
        I::CondBr(a, _, _) | I::Switch(a, _, _) => o(a),
        I::Ret(Some(a)) => o(a),
        _ => {}
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match &b.insts.last().map(|x| &x.i) {
        Some(I::Br(t)) => vec![*t],
        Some(I::CondBr(_, a, c)) => vec![*a, *c],
        Some(I::Switch(_, d, cs)) => {
            let mut v = vec![*d];
            for (_, t) in cs {
                if !v.contains(t) {
                    v.push(*t);
                }
            }
            v
        }
        _ => vec![],
    }
}

/// loop nesting, weak topological order and liveness
fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let sc: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in sc.iter().enumerate() {
        for t in s {
            preds[*t as usize].push(i as u32);
        }
    }
    // recursive SCC decomposition gives the loop nest and the order
    fn scc(nodes: &[u32], entry: u32, sc: &[Vec<u32>], inset: &dyn Fn(u32) -> bool) -> Vec<Vec<u32>> {
        // Tarjan, iterative; returns SCCs in topological order (first = entry side)
        use std::collections::HashMap;
        let mut idx: HashMap<u32, (u32, u32, bool)> = HashMap::new(); // index, low, onstack
        let mut stack: Vec<u32> = vec![];
        let mut out: Vec<Vec<u32>> = vec![];
        let mut counter = 0;
        let mut roots = vec![entry];
        roots.extend_from_slice(nodes);
        for r in roots {
            if idx.contains_key(&r) || !inset(r) {
                continue;
            }
            let mut work: Vec<(u32, usize)> = vec![(r, 0)];
            idx.insert(r, (counter, counter, true));
            counter += 1;
            stack.push(r);
            while let Some((v, k)) = work.pop() {
                if k < sc[v as usize].len() {
                    work.push((v, k + 1));
                    let t = sc[v as usize][k];
                    if !inset(t) {
                        continue;
                    }
                    match idx.get(&t) {
                        None => {
                            idx.insert(t, (counter, counter, true));
                            counter += 1;
                            stack.push(t);
                            work.push((t, 0));
                        }
                        Some(&(ti, _, on)) => {
                            if on {
                                let e = idx.get_mut(&v).unwrap();
                                e.1 = e.1.min(ti);
                            }
                        }
                    }
                } else {
                    let (vi, vl, _) = idx[&v];
                    if let Some((p, _)) = work.last() {
                        let e = idx.get_mut(p).unwrap();
                        e.1 = e.1.min(vl);
                    }
                    if vi == vl {
                        let mut comp = vec![];
                        loop {
                            let x = stack.pop().unwrap();
                            idx.get_mut(&x).unwrap().2 = false;
                            comp.push(x);
                            if x == v {
                                break;
                            }
                        }
                        out.push(comp);
                    }
                }
            }
        }
        out.reverse();
        out
    }
    let mut order = vec![0u32; n];
    let mut loops: Vec<Vec<u32>> = vec![vec![]; n];
    let mut counter = 0u32;
    // work stack emulating recursion
    fn rec(nodes: Vec<u32>, entry: u32, sc: &[Vec<u32>], preds: &[Vec<u32>], order: &mut [u32], loops: &mut [Vec<u32>], counter: &mut u32, nest: &[u32], removed: &mut Vec<bool>, depth: u32) {
        let set: std::collections::HashSet<u32> = nodes.iter().copied().collect();
        let comps = {
            let rm = removed.clone();
            let inset = |x: u32| set.contains(&x) && !rm[x as usize];
            scc(&nodes, entry, sc, &inset)
        };
        for c in comps {
            let selfloop = c.len() == 1 && sc[c[0] as usize].contains(&c[0]) && !removed[c[0] as usize];
            if c.len() == 1 && !selfloop {
                order[c[0] as usize] = *counter;
                *counter += 1;
                loops[c[0] as usize] = nest.to_vec();
                continue;
            }
            // header: a node with a predecessor outside the component, prefer entry
            let cs: std::collections::HashSet<u32> = c.iter().copied().collect();
            let mut h = c[c.len() - 1];
            if cs.contains(&entry) {
                h = entry;
            } else {
                let mut best = 0;
                for x in &c {
                    let k = preds[*x as usize].iter().filter(|p| !cs.contains(p)).count();
                    if k > best {
                        best = k;
                        h = *x;
                    }
                }
            }
            order[h as usize] = *counter;
            *counter += 1;
            let mut nn = nest.to_vec();
            nn.push(h);
            loops[h as usize] = nn.clone();
            if c.len() > 1 {
                removed[h as usize] = true;
                let inner: Vec<u32> = c.iter().copied().filter(|x| *x != h).collect();
                // entry of the inner graph: a successor of h
                let en = sc[h as usize].iter().copied().find(|x| cs.contains(x) && *x != h).unwrap_or(inner[0]);
                rec(inner, en, sc, preds, order, loops, counter, &nn, removed, depth + 1);
                removed[h as usize] = false;
            }
        }
    }
    let nodes: Vec<u32> = (0..n as u32).collect();
    let mut removed = vec![false; n];
    rec(nodes, 0, &sc, &preds, &mut order, &mut loops, &mut counter, &[], &mut removed, 0);
    // liveness
    let words = (f.nregs as usize + 63) / 64;
    let mut live_in: Vec<Vec<u64>> = vec![vec![0; words]; n]; // before phis are applied excluded; after phis
    let mut usev: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut defv: Vec<Vec<u64>> = vec![vec![0; words]; n];
    for (bi, b) in f.blocks.iter().enumerate() {
        for ins in &b.insts {
            let d = &defv[bi];
            let mut us = vec![];
            for_each_use(&ins.i, &mut |r| us.push(r));
            for r in us {
                if d[r as usize / 64] >> (r % 64) & 1 == 0 {
                    usev[bi][r as usize / 64] |= 1 << (r % 64);
                }
            }
            if let Some(r) = ins.dest {
                defv[bi][r as usize / 64] |= 1 << (r % 64);
            }
        }
    }
    let mut changed = true;
    let mut byorder: Vec<usize> = (0..n).collect();
    byorder.sort_by_key(|b| std::cmp::Reverse(order[*b]));
    while changed {
        changed = false;
        for &bi in &byorder {
            let mut out = vec![0u64; words];
            for t in &sc[bi] {
                let tb = &f.blocks[*t as usize];
                let mut li = live_in[*t as usize].clone();
                for ph in &tb.phis {
                    li[ph.dest as usize / 64] &= !(1 << (ph.dest % 64));
                }
                for ph in &tb.phis {
                    for (pb, o) in &ph.inc {
                        if *pb as usize == bi {
                            if let Opnd::Reg(r) = o {
                                li[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                    }
                }
                for k in 0..words {
                    out[k] |= li[k];
                }
            }
            let mut nl = vec![0u64; words];
            for k in 0..words {
                nl[k] = usev[bi][k] | (out[k] & !defv[bi][k]);
            }
            if nl != live_in[bi] {
                live_in[bi] = nl;
                changed = true;
            }
        }
    }
    for bi in 0..n {
        f.blocks[bi].order = order[bi];
        f.blocks[bi].loops = loops[bi].clone();
        f.blocks[bi].npreds = preds[bi].len() as u32;
        f.blocks[bi].live_in = std::mem::take(&mut live_in[bi]);
    }
}
