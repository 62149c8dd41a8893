//! Parser for textual LLVM IR (opaque pointers), limited to what rustc emits for x86-64.
//!
//! The module is indexed once; function bodies are parsed on first use.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// Pointer width and integer alignment follow the target (set once at start-up).
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(max_int_align())
            }
            Ty::Ptr => ptr_bytes(),
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }

    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => ptr_bytes(),
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(..) => self.size(),
            _ => 0,
        }
    }

    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => ptr_bytes() * 8,
            Ty::Float(w) => *w as u64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }

    /// Allocation size (padded to alignment).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs.iter() {
                    if !packed {
                        off = align_up(off, f.align());
                    }
                    off += f.size();
                }
                if !packed {
                    off = align_up(off, self.align());
                }
                off
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Void | Ty::Other => 0,
            _ => align_up(self.store_size(), self.align()),
        }
    }

    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        off = align_up(off, f.align());
                    }
                    if j == i {
                        return off;
                    }
                    off += f.size();
                }
                off
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.store_size(),
            _ => 0,
        }
    }

    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }

    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }

    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

static mut PTR_BYTES: u64 = 8;
static mut BIG_ENDIAN: bool = false;
static mut MAX_INT_ALIGN: u64 = 16;

pub fn ptr_bytes() -> u64 {
    unsafe { PTR_BYTES }
}
pub fn ptr_bits() -> u32 {
    (ptr_bytes() * 8) as u32
}
pub fn big_endian() -> bool {
    unsafe { BIG_ENDIAN }
}
fn max_int_align() -> u64 {
    unsafe { MAX_INT_ALIGN }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Cst)>),
    Global(String),
    Gep(Ty, Box<Cst>, Vec<(Ty, Cst)>),
    /// Size-preserving or integer cast: (op, from type, value, to type)
    Cast(String, Ty, Box<Cst>, Ty),
    Bin(String, Ty, Box<Cst>, Box<Cst>),
    Meta,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Ty, Rc<Cst>),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bop, Ty, Opd, Opd, bool /* nuw */, bool /* nsw */, bool /* exact/disjoint */),
    ICmp(String, Ty, Opd, Opd),
    Cast(Cop, Ty, Opd, Ty),
    Select(Ty, Ty, Opd, Opd, Opd),
    Alloca(Ty, Opd, Ty, u64),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Ty, Opd, Vec<(Ty, Opd)>),
    Call(Rc<CallI>),
    ExtractValue(Ty, Opd, Vec<u32>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Freeze(Ty, Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    LandingPad,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Resume,
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cop {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub ret: Ty,
    pub args: Vec<(Ty, Opd)>,
    /// Normal destination of an `invoke`.
    pub normal: Option<u32>,
}

#[derive(Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub k: I,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub demangled: String,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub align: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Loc(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    Meta(String),
    Attr,
    P(char),
    Ellipsis,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

fn lex(s: &[u8]) -> Vec<T> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (name, j) = if i + 1 < s.len() && s[i + 1] == b'"' {
                    let mut j = i + 2;
                    while s[j] != b'"' {
                        j += 1;
                    }
                    (String::from_utf8_lossy(&s[i + 2..j]).into_owned(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < s.len() && is_id(s[j]) {
                        j += 1;
                    }
                    (String::from_utf8_lossy(&s[i + 1..j]).into_owned(), j)
                };
                v.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while s[j] != b'"' {
                    j += 1;
                }
                v.push(T::Str(unescape(&s[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => {
                let mut j = i + 2;
                while s[j] != b'"' {
                    j += 1;
                }
                v.push(T::Str(unescape(&s[i + 2..j])));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < s.len() && (is_id(s[j]) || s[j] == b'\\') {
                    j += 1;
                }
                v.push(T::Meta(String::from_utf8_lossy(&s[i + 1..j]).into_owned()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < s.len() && is_id(s[j]) {
                    j += 1;
                }
                v.push(T::Attr);
                i = j;
            }
            b'.' if s[i..].starts_with(b"...") => {
                v.push(T::Ellipsis);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < s.len() && (s[j].is_ascii_alphanumeric() || s[j] == b'.' || s[j] == b'+') {
                    j += 1;
                }
                v.push(T::Num(String::from_utf8_lossy(&s[i..j]).into_owned()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let mut j = i + 1;
                while j < s.len() && is_id(s[j]) {
                    j += 1;
                }
                v.push(T::Id(String::from_utf8_lossy(&s[i..j]).into_owned()));
                i = j;
            }
            _ => {
                v.push(T::P(c as char));
                i += 1;
            }
        }
    }
    v
}

struct Ps<'a> {
    t: Vec<T>,
    i: usize,
    types: &'a HashMap<String, Ty>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl<'a> Ps<'a> {
    fn new(t: Vec<T>, types: &'a HashMap<String, Ty>) -> Self {
        Ps {
            t,
            i: 0,
            types,
            regs: HashMap::new(),
            labels: HashMap::new(),
        }
    }
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&T> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> R<T> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, found {:?}", c, self.peek()))
        }
    }
    fn want_id(&mut self, s: &str) -> R<()> {
        if self.eat_id(s) {
            Ok(())
        } else {
            Err(format!("expected {}, found {:?}", s, self.peek()))
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            T::Num(s) => s.parse().map_err(|_| format!("bad number {}", s)),
            x => Err(format!("expected number, found {:?}", x)),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.want_p('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::Id(s)) => {
                matches!(
                    s.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "token" | "x86_fp80"
                ) || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::Loc(n)) => self.types.contains_key(n) && !self.regs.contains_key(n),
            _ => false,
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        Ok(match t {
            T::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "half" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "fp128" => Ty::Float(128),
                "label" | "metadata" | "token" | "x86_fp80" => Ty::Other,
                _ => {
                    if s.starts_with('i') {
                        Ty::Int(s[1..].parse().map_err(|_| format!("bad type {}", s))?)
                    } else {
                        return Err(format!("bad type {}", s));
                    }
                }
            },
            T::P('[') => {
                let n = self.num()?;
                self.want_id("x")?;
                let e = self.ty()?;
                self.want_p(']')?;
                Ty::Arr(n, Rc::new(e))
            }
            T::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let fs = self.ty_list('}')?;
                    self.want_p('>')?;
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = self.num()?;
                    self.want_id("x")?;
                    let e = self.ty()?;
                    self.want_p('>')?;
                    Ty::Vec(n, Rc::new(e))
                }
            }
            T::P('{') => {
                let fs = self.ty_list('}')?;
                Ty::Struct(Rc::new(fs), false)
            }
            T::Loc(n) => self.types.get(&n).cloned().ok_or(format!("unknown type %{}", n))?,
            x => return Err(format!("bad type token {:?}", x)),
        })
    }

    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        while !self.eat_p(end) {
            v.push(self.ty()?);
            self.eat_p(',');
        }
        Ok(v)
    }

    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        let t = self.next()?;
        Ok(match t {
            T::Num(s) => {
                if let Ty::Float(_) = ty {
                    // Hexadecimal bit pattern or decimal: only bit patterns of 0 occur in practice.
                    if s.starts_with("0x") {
                        Cst::Int(u128::from_str_radix(&s[2..], 16).unwrap_or(0))
                    } else {
                        let f: f64 = s.parse().unwrap_or(0.0);
                        Cst::Int(match ty {
                            Ty::Float(32) => (f as f32).to_bits() as u128,
                            _ => f.to_bits() as u128,
                        })
                    }
                } else if let Some(r) = s.strip_prefix('-') {
                    let v: u128 = r.parse().map_err(|_| format!("bad int {}", s))?;
                    Cst::Int(v.wrapping_neg())
                } else {
                    Cst::Int(s.parse().map_err(|_| format!("bad int {}", s))?)
                }
            }
            T::Id(s) => match s.as_str() {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" | "none" => Cst::Zero,
                "zeroinitializer" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "splat" => {
                    self.want_p('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.want_p(')')?;
                    Cst::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.next()?;
                        // inrange(...) carries parentheses of its own
                        if matches!(self.t.get(self.i - 1), Some(T::Id(x)) if x == "inrange") {
                            self.skip_parens()?;
                        }
                    }
                    self.want_p('(')?;
                    let t = self.ty()?;
                    self.want_p(',')?;
                    let pt = self.ty()?;
                    let p = self.cst(&pt)?;
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        let c = self.cst(&it)?;
                        idx.push((it, c));
                    }
                    self.want_p(')')?;
                    Cst::Gep(t, Box::new(p), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    while !self.is_p('(') {
                        self.next()?;
                    }
                    self.want_p('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.want_id("to")?;
                    let to = self.ty()?;
                    self.want_p(')')?;
                    Cst::Cast(s, t, Box::new(c), to)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while !self.is_p('(') {
                        self.next()?;
                    }
                    self.want_p('(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.want_p(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.want_p(')')?;
                    Cst::Bin(s, t, Box::new(a), Box::new(b))
                }
                _ => return Err(format!("unknown constant {}", s)),
            },
            T::Glob(n) => Cst::Global(n),
            T::Str(b) => Cst::Bytes(b),
            T::P('{') => self.agg('}')?,
            T::P('[') => self.agg(']')?,
            T::P('<') => {
                if self.eat_p('{') {
                    let a = self.agg('}')?;
                    self.want_p('>')?;
                    a
                } else {
                    self.agg('>')?
                }
            }
            T::Meta(_) => {
                if self.is_p('(') {
                    self.skip_parens()?;
                }
                Cst::Meta
            }
            x => return Err(format!("bad constant {:?}", x)),
        })
    }

    fn agg(&mut self, end: char) -> R<Cst> {
        let mut v = Vec::new();
        while !self.eat_p(end) {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            self.eat_p(',');
        }
        Ok(Cst::Agg(v))
    }

    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }

    fn label(&mut self) -> R<u32> {
        self.want_id("label")?;
        match self.next()? {
            T::Loc(n) => Ok(self.lab(&n)),
            x => Err(format!("bad label {:?}", x)),
        }
    }

    fn lab(&mut self, n: &str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(k)
    }

    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Some(T::Loc(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::R(self.reg(&n)));
        }
        let c = self.cst(ty)?;
        Ok(Opd::C(ty.clone(), Rc::new(c)))
    }

    fn typed(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }

    fn is_value_start(&self) -> bool {
        match self.peek() {
            Some(T::Id(s)) => matches!(
                s.as_str(),
                "true"
                    | "false"
                    | "null"
                    | "none"
                    | "zeroinitializer"
                    | "undef"
                    | "poison"
                    | "splat"
                    | "getelementptr"
                    | "ptrtoint"
                    | "inttoptr"
                    | "bitcast"
                    | "trunc"
                    | "add"
                    | "sub"
                    | "xor"
            ),
            Some(T::Attr) | Some(T::Ellipsis) | None => false,
            _ => true,
        }
    }

    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Id(s)) if !self.is_value_start() && s != "to" => {
                    let s = s.clone();
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if (s == "align" || s == "cc") && matches!(self.peek(), Some(T::Num(_))) {
                        self.i += 1;
                    }
                }
                Some(T::Attr) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }

    fn skip_ret_attrs(&mut self) -> R<()> {
        while !self.is_type_start() {
            match self.next()? {
                T::Id(s) => {
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if (s == "align" || s == "cc") && matches!(self.peek(), Some(T::Num(_))) {
                        self.i += 1;
                    }
                }
                T::Attr => {}
                x => return Err(format!("bad return attribute {:?}", x)),
            }
        }
        Ok(())
    }

    fn call(&mut self, invoke: bool) -> R<CallI> {
        self.skip_ret_attrs()?;
        let ret = self.ty()?;
        // explicit function type of a variadic callee
        if self.is_p('(') {
            self.skip_parens()?;
        }
        let callee = match self.next()? {
            T::Glob(n) => Callee::Direct(n),
            T::Loc(n) => Callee::Indirect(Opd::R(self.reg(&n))),
            T::Id(s) if s == "asm" => {
                let mut txt = String::new();
                while !self.is_p('(') {
                    if let T::Str(b) = self.next()? {
                        txt.push_str(&String::from_utf8_lossy(&b));
                        txt.push('|');
                    }
                }
                Callee::Asm(txt)
            }
            T::Id(_) => {
                self.i -= 1;
                let c = self.cst(&Ty::Ptr)?;
                Callee::Indirect(Opd::C(Ty::Ptr, Rc::new(c)))
            }
            x => return Err(format!("bad callee {:?}", x)),
        };
        self.want_p('(')?;
        let mut args = Vec::new();
        while !self.eat_p(')') {
            let t = self.ty()?;
            if t == Ty::Other {
                // metadata argument: skip to the next comma or the closing parenthesis
                let mut d = 0;
                loop {
                    match self.peek() {
                        Some(T::P('(')) => d += 1,
                        Some(T::P(')')) if d > 0 => d -= 1,
                        Some(T::P(')')) | Some(T::P(',')) if d == 0 => break,
                        None => return Err("unterminated metadata argument".into()),
                        _ => {}
                    }
                    self.i += 1;
                }
                args.push((t, Opd::C(Ty::Other, Rc::new(Cst::Meta))));
            } else {
                self.skip_attrs()?;
                let o = self.opd(&t)?;
                args.push((t, o));
            }
            self.eat_p(',');
        }
        self.skip_attrs()?;
        // operand bundles
        if self.is_p('[') {
            while !self.eat_p(']') {
                self.i += 1;
                if self.i > self.t.len() {
                    return Err("unterminated operand bundle".into());
                }
            }
        }
        let normal = if invoke {
            self.want_id("to")?;
            let n = self.label()?;
            self.want_id("unwind")?;
            self.label()?;
            Some(n)
        } else {
            None
        };
        Ok(CallI {
            callee,
            ret,
            args,
            normal,
        })
    }

    fn indices(&mut self) -> R<Vec<u32>> {
        let mut v = Vec::new();
        while self.is_p(',') && matches!(self.peek_at(1), Some(T::Num(_))) {
            self.i += 1;
            v.push(self.num()? as u32);
        }
        Ok(v)
    }

    fn skip_order(&mut self) {
        while matches!(self.peek(), Some(T::Id(_))) {
            self.i += 1;
            if self.is_p('(') {
                let _ = self.skip_parens();
            }
        }
    }

    fn dbg(&self) -> u32 {
        let mut k = self.i;
        while k + 1 < self.t.len() {
            if let (T::Meta(a), T::Meta(b)) = (&self.t[k], &self.t[k + 1]) {
                if a == "dbg" {
                    return b.parse().unwrap_or(0);
                }
            }
            k += 1;
        }
        0
    }

    fn bin_op(s: &str) -> Option<Bop> {
        Some(match s {
            "add" => Bop::Add,
            "sub" => Bop::Sub,
            "mul" => Bop::Mul,
            "udiv" => Bop::UDiv,
            "sdiv" => Bop::SDiv,
            "urem" => Bop::URem,
            "srem" => Bop::SRem,
            "shl" => Bop::Shl,
            "lshr" => Bop::LShr,
            "ashr" => Bop::AShr,
            "and" => Bop::And,
            "or" => Bop::Or,
            "xor" => Bop::Xor,
            _ => return None,
        })
    }

    fn inst(&mut self) -> R<I> {
        let op = match self.next()? {
            T::Id(s) => s,
            x => return Err(format!("bad opcode {:?}", x)),
        };
        if let Some(b) = Self::bin_op(&op) {
            let (mut nuw, mut nsw, mut ex) = (false, false, false);
            loop {
                if self.eat_id("nuw") {
                    nuw = true;
                } else if self.eat_id("nsw") {
                    nsw = true;
                } else if self.eat_id("exact") || self.eat_id("disjoint") {
                    ex = true;
                } else {
                    break;
                }
            }
            let t = self.ty()?;
            let a = self.opd(&t)?;
            self.want_p(',')?;
            let c = self.opd(&t)?;
            return Ok(I::Bin(b, t, a, c, nuw, nsw, ex));
        }
        Ok(match op.as_str() {
            "icmp" => {
                self.eat_id("samesign");
                let p = match self.next()? {
                    T::Id(s) => s,
                    x => return Err(format!("bad predicate {:?}", x)),
                };
                let t = self.ty()?;
                let a = self.opd(&t)?;
                self.want_p(',')?;
                let b = self.opd(&t)?;
                I::ICmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
                while self.eat_id("nuw") || self.eat_id("nsw") || self.eat_id("nneg") {}
                let (t, a) = self.typed()?;
                self.want_id("to")?;
                let to = self.ty()?;
                let c = match op.as_str() {
                    "trunc" => Cop::Trunc,
                    "zext" => Cop::ZExt,
                    "sext" => Cop::SExt,
                    "ptrtoint" | "ptrtoaddr" => Cop::PtrToInt,
                    "inttoptr" => Cop::IntToPtr,
                    _ => Cop::BitCast,
                };
                I::Cast(c, t, a, to)
            }
            "select" => {
                let (ct, c) = self.typed()?;
                self.want_p(',')?;
                let (t, a) = self.typed()?;
                self.want_p(',')?;
                let (_, b) = self.typed()?;
                I::Select(ct, t, c, a, b)
            }
            "alloca" => {
                self.eat_id("inalloca");
                let t = self.ty()?;
                let mut n = (Ty::Int(64), Opd::C(Ty::Int(64), Rc::new(Cst::Int(1))));
                let mut al = t.align();
                while self.eat_p(',') {
                    if self.eat_id("align") {
                        al = self.num()?;
                    } else if self.is_type_start() {
                        n = self.typed()?;
                    } else {
                        break;
                    }
                }
                I::Alloca(t, n.1, n.0, al)
            }
            "load" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let t = self.ty()?;
                self.want_p(',')?;
                let (_, p) = self.typed()?;
                I::Load(t, p)
            }
            "store" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let (t, v) = self.typed()?;
                self.want_p(',')?;
                let (_, p) = self.typed()?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                while self.eat_id("inbounds") || self.eat_id("nuw") || self.eat_id("nusw") {}
                let t = self.ty()?;
                self.want_p(',')?;
                let (pt, p) = self.typed()?;
                if pt != Ty::Ptr {
                    return Ok(I::Unsupported("vector getelementptr".into()));
                }
                let mut idx = Vec::new();
                while self.is_p(',') && !matches!(self.peek_at(1), Some(T::Meta(_))) {
                    self.i += 1;
                    idx.push(self.typed()?);
                }
                I::Gep(t, p, idx)
            }
            "call" => I::Call(Rc::new(self.call(false)?)),
            "tail" | "musttail" | "notail" => {
                self.want_id("call")?;
                I::Call(Rc::new(self.call(false)?))
            }
            "invoke" => I::Call(Rc::new(self.call(true)?)),
            "extractvalue" => {
                let (t, a) = self.typed()?;
                let ix = self.indices()?;
                I::ExtractValue(t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.typed()?;
                self.want_p(',')?;
                let (t2, b) = self.typed()?;
                let ix = self.indices()?;
                I::InsertValue(t, a, t2, b, ix)
            }
            "extractelement" => {
                let (t, a) = self.typed()?;
                self.want_p(',')?;
                let (_, b) = self.typed()?;
                I::ExtractElement(t, a, b)
            }
            "insertelement" => {
                let (t, a) = self.typed()?;
                self.want_p(',')?;
                let (_, b) = self.typed()?;
                self.want_p(',')?;
                let (_, c) = self.typed()?;
                I::InsertElement(t, a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.typed()?;
                self.want_p(',')?;
                let (_, b) = self.typed()?;
                self.want_p(',')?;
                let mt = self.ty()?;
                let m = self.cst(&mt)?;
                let n = mt.count();
                let mask = match m {
                    Cst::Zero => vec![Some(0); n],
                    Cst::Undef => vec![None; n],
                    Cst::Splat(b) => match b.1 {
                        Cst::Int(k) => vec![Some(k as u32); n],
                        _ => vec![None; n],
                    },
                    Cst::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Cst::Int(k) => Some(*k as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("bad shuffle mask".into()),
                };
                I::Shuffle(t, a, b, mask)
            }
            "freeze" => {
                let (t, a) = self.typed()?;
                I::Freeze(t, a)
            }
            "atomicrmw" => {
                self.eat_id("volatile");
                let o = match self.next()? {
                    T::Id(s) => s,
                    x => return Err(format!("bad rmw {:?}", x)),
                };
                let (_, p) = self.typed()?;
                self.want_p(',')?;
                let (t, v) = self.typed()?;
                self.skip_order();
                I::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.eat_id("weak");
                self.eat_id("volatile");
                let (_, p) = self.typed()?;
                self.want_p(',')?;
                let (t, c) = self.typed()?;
                self.want_p(',')?;
                let (_, n) = self.typed()?;
                I::CmpXchg(t, p, c, n)
            }
            "fence" => I::Fence,
            "landingpad" => I::LandingPad,
            "br" => {
                if self.is_id("label") {
                    I::Br(self.label()?)
                } else {
                    let (_, c) = self.typed()?;
                    self.want_p(',')?;
                    let a = self.label()?;
                    self.want_p(',')?;
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed()?;
                self.want_p(',')?;
                let d = self.label()?;
                self.want_p('[')?;
                let mut cs = Vec::new();
                while !self.eat_p(']') {
                    let ct = self.ty()?;
                    let k = match self.cst(&ct)? {
                        Cst::Int(k) => k,
                        Cst::Zero => 0,
                        x => return Err(format!("bad switch case {:?}", x)),
                    };
                    self.want_p(',')?;
                    let l = self.label()?;
                    cs.push((k, l));
                }
                I::Switch(t, v, d, cs)
            }
            "ret" => {
                if self.eat_id("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.typed()?))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            _ => I::Unsupported(op),
        })
    }
}

struct RawFn {
    header: (usize, usize),
    body: (usize, usize),
    demangled: String,
}

pub struct Module {
    text: &'static [u8],
    pub types: HashMap<String, Ty>,
    raw: HashMap<String, RawFn>,
    pub declared: Vec<String>,
    pub globals: Vec<Global>,
    funcs: HashMap<String, Rc<Func>>,
    meta: HashMap<u32, (usize, usize)>,
    pub fn_order: Vec<String>,
}

fn lines(s: &[u8]) -> impl Iterator<Item = (usize, usize)> + '_ {
    let mut pos = 0;
    std::iter::from_fn(move || {
        if pos >= s.len() {
            return None;
        }
        let st = pos;
        let mut e = pos;
        while e < s.len() && s[e] != b'\n' {
            e += 1;
        }
        pos = e + 1;
        Some((st, e))
    })
}

fn global_name(line: &[u8], from: usize) -> Option<(String, usize)> {
    let at = from + line[from..].iter().position(|c| *c == b'@')?;
    if line.get(at + 1) == Some(&b'"') {
        let e = at + 2 + line[at + 2..].iter().position(|c| *c == b'"')?;
        Some((String::from_utf8_lossy(&line[at + 2..e]).into_owned(), e + 1))
    } else {
        let mut e = at + 1;
        while e < line.len() && is_id(line[e]) {
            e += 1;
        }
        Some((String::from_utf8_lossy(&line[at + 1..e]).into_owned(), e))
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: &'static [u8] = Box::leak(
            std::fs::read(path)
                .map_err(|e| format!("{}: {}", path, e))?
                .into_boxed_slice(),
        );
        let mut m = Module {
            text,
            types: HashMap::new(),
            raw: HashMap::new(),
            declared: Vec::new(),
            globals: Vec::new(),
            funcs: HashMap::new(),
            meta: HashMap::new(),
            fn_order: Vec::new(),
        };
        let mut glines = Vec::new();
        let mut comment = String::new();
        let mut it = lines(text);
        while let Some((s, e)) = it.next() {
            let l = &text[s..e];
            if l.is_empty() {
                continue;
            }
            match l[0] {
                b'@' => glines.push((s, e)),
                b'%' => {
                    let t = lex(l);
                    if let T::Loc(n) = &t[0] {
                        let n = n.clone();
                        let types = m.types.clone();
                        let mut p = Ps::new(t, &types);
                        p.i = 3; // %name = type
                        if let Ok(ty) = p.ty() {
                            m.types.insert(n, ty);
                        }
                    }
                }
                b';' => {
                    if !l.starts_with(b"; Function Attrs") && !l.starts_with(b"; ModuleID") {
                        comment = String::from_utf8_lossy(&l[2..]).into_owned();
                    }
                }
                b'd' if l.starts_with(b"define ") => {
                    let (name, _) = global_name(l, 0).ok_or("define without a name")?;
                    let bs = e + 1;
                    let mut be = bs;
                    for (s2, e2) in it.by_ref() {
                        if &text[s2..e2] == b"}" {
                            be = s2;
                            break;
                        }
                    }
                    m.fn_order.push(name.clone());
                    m.raw.insert(
                        name,
                        RawFn {
                            header: (s, e),
                            body: (bs, be),
                            demangled: std::mem::take(&mut comment),
                        },
                    );
                }
                b'd' if l.starts_with(b"declare ") => {
                    if let Some((n, _)) = global_name(l, 0) {
                        m.declared.push(n);
                    }
                    comment.clear();
                }
                b't' if l.starts_with(b"target datalayout") => {
                    let s = String::from_utf8_lossy(l);
                    let q: Vec<&str> = s.split('"').collect();
                    unsafe {
                        for part in q[1].split('-') {
                            if part == "E" {
                                BIG_ENDIAN = true;
                            }
                            if part.starts_with("p:32") {
                                PTR_BYTES = 4;
                            }
                            if part == "i128:128" {
                                MAX_INT_ALIGN = 16;
                            }
                        }
                        if !q[1].contains("i128:128") {
                            MAX_INT_ALIGN = 8;
                        }
                        if PTR_BYTES == 4 && !q[1].contains("i64:64") {
                            MAX_INT_ALIGN = 4;
                        }
                    }
                }
                b'!' => {
                    let mut k = 1;
                    let mut id = 0u32;
                    while k < l.len() && l[k].is_ascii_digit() {
                        id = id * 10 + (l[k] - b'0') as u32;
                        k += 1;
                    }
                    if k > 1 {
                        m.meta.insert(id, (s, e));
                    }
                }
                _ => {}
            }
        }
        for (s, e) in glines {
            let t = lex(&text[s..e]);
            let g = Self::global(t, &m.types).map_err(|x| {
                format!("global {}: {}", String::from_utf8_lossy(&text[s..e.min(s + 120)]), x)
            })?;
            if let Some(g) = g {
                m.globals.push(g);
            }
        }
        Ok(m)
    }

    fn global(t: Vec<T>, types: &HashMap<String, Ty>) -> R<Option<Global>> {
        let mut p = Ps::new(t, types);
        let name = match p.next()? {
            T::Glob(n) => n,
            x => return Err(format!("bad global {:?}", x)),
        };
        p.want_p('=')?;
        let mut external = false;
        let constant;
        loop {
            match p.next()? {
                T::Id(s) => match s.as_str() {
                    "global" => {
                        constant = false;
                        break;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" | "ifunc" => return Err(format!("alias {}", name)),
                    "external" | "extern_weak" => external = true,
                    _ => {
                        if p.is_p('(') {
                            p.skip_parens()?;
                        }
                    }
                },
                x => return Err(format!("bad global attribute {:?}", x)),
            }
        }
        let ty = p.ty()?;
        let init = if external { None } else { Some(p.cst(&ty)?) };
        let mut align = ty.align();
        while p.i < p.t.len() {
            if p.eat_id("align") {
                align = p.num()?;
            } else {
                p.i += 1;
            }
        }
        Ok(Some(Global {
            name,
            ty,
            init,
            constant,
            align,
        }))
    }

    pub fn has(&self, name: &str) -> bool {
        self.raw.contains_key(name)
    }

    pub fn demangled(&self, name: &str) -> &str {
        self.raw.get(name).map(|r| r.demangled.as_str()).unwrap_or("")
    }

    pub fn func(&mut self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let raw = self.raw.get(name).ok_or(format!("no body for {}", name))?;
        let f = self
            .parse_fn(name, raw)
            .map_err(|e| format!("function {}: {}", name, e))?;
        let f = Rc::new(f);
        self.funcs.insert(name.to_string(), f.clone());
        Ok(f)
    }

    fn parse_fn(&self, name: &str, raw: &RawFn) -> R<Func> {
        let hl = &self.text[raw.header.0..raw.header.1];
        let mut p = Ps::new(lex(hl), &self.types);
        p.want_id("define")?;
        p.skip_ret_attrs()?;
        let ret = p.ty()?;
        p.next()?; // name
        p.want_p('(')?;
        let mut params = Vec::new();
        let mut anon = 0;
        while !p.eat_p(')') {
            if p.peek() == Some(&T::Ellipsis) {
                return Err("variadic definition".into());
            }
            let t = p.ty()?;
            p.skip_attrs()?;
            let n = match p.peek() {
                Some(T::Loc(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    n
                }
                _ => {
                    anon += 1;
                    (anon - 1).to_string()
                }
            };
            if n.parse::<u32>().is_ok() {
                anon = n.parse::<u32>().unwrap() + 1;
            }
            let r = p.reg(&n);
            params.push((t, r));
            p.eat_p(',');
        }
        let body = &self.text[raw.body.0..raw.body.1];
        // Logical lines: join continuation lines (switch tables, invoke targets, landingpad clauses).
        let mut logical: Vec<Vec<u8>> = Vec::new();
        for (s, e) in lines(body) {
            let l = &body[s..e];
            let tr: &[u8] = {
                let mut k = 0;
                while k < l.len() && l[k] == b' ' {
                    k += 1;
                }
                &l[k..]
            };
            if tr.is_empty() || tr[0] == b';' {
                continue;
            }
            let cont = tr.starts_with(b"to label")
                || tr == b"cleanup"
                || tr.starts_with(b"cleanup ")
                || tr.starts_with(b"catch ")
                || tr.starts_with(b"filter ")
                || tr.starts_with(b"],")
                || tr == b"]"
                || tr.starts_with(b"] ")
                || (l.starts_with(b"    ") && logical.last().map_or(false, |x: &Vec<u8>| x.starts_with(b"  switch")));
            if cont {
                let last = logical.last_mut().ok_or("continuation without a line")?;
                last.push(b' ');
                last.extend_from_slice(tr);
            } else {
                logical.push(l.to_vec());
            }
        }
        let mut blocks: Vec<(u32, Block)> = Vec::new();
        let first_is_label = logical.first().map_or(false, |l| l[0] != b' ');
        if !first_is_label {
            let k = p.lab(&anon.to_string());
            blocks.push((k, Block::default()));
        }
        for l in logical {
            if l[0] != b' ' {
                // label line
                let name = if l[0] == b'"' {
                    let e = 1 + l[1..].iter().position(|c| *c == b'"').ok_or("bad label")?;
                    String::from_utf8_lossy(&l[1..e]).into_owned()
                } else {
                    let e = l.iter().position(|c| *c == b':').ok_or("bad label")?;
                    String::from_utf8_lossy(&l[..e]).into_owned()
                };
                let k = p.lab(&name);
                blocks.push((k, Block::default()));
                continue;
            }
            p.t = lex(&l);
            p.i = 0;
            let mut dst = None;
            if let (Some(T::Loc(n)), Some(T::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) {
                dst = Some(p.reg(&n));
                p.i = 2;
            }
            // "#dbg_..." records
            if p.t.first() == Some(&T::Attr) {
                continue;
            }
            let blk = &mut blocks.last_mut().ok_or("instruction outside a block")?.1;
            if p.is_id("phi") {
                p.i += 1;
                let ty = p.ty()?;
                let mut inc = Vec::new();
                loop {
                    p.want_p('[')?;
                    let o = p.opd(&ty)?;
                    p.want_p(',')?;
                    let lb = match p.next()? {
                        T::Loc(n) => p.lab(&n),
                        x => return Err(format!("bad phi {:?}", x)),
                    };
                    p.want_p(']')?;
                    inc.push((lb, o));
                    if !(p.is_p(',') && p.peek_at(1) == Some(&T::P('['))) {
                        break;
                    }
                    p.i += 1;
                }
                blk.phis.push(Phi {
                    dst: dst.ok_or("phi without a name")?,
                    ty,
                    inc,
                });
                continue;
            }
            let k = p
                .inst()
                .map_err(|e| format!("{}: {}", String::from_utf8_lossy(&l[..l.len().min(200)]), e))?;
            let dbg = p.dbg();
            blk.insts.push(Inst { dst, k, dbg });
        }
        let n = blocks.len();
        let mut out: Vec<Block> = Vec::new();
        out.resize_with(n.max(p.labels.len()), Block::default);
        // Block 0 must be the entry block: labels are numbered in order of first mention,
        // and the entry label is the first one mentioned.
        for (k, b) in blocks {
            out[k as usize] = b;
        }
        Ok(Func {
            name: name.to_string(),
            demangled: raw.demangled.clone(),
            ret,
            params,
            blocks: out,
            nregs: p.regs.len() as u32,
        })
    }

    fn meta_line(&self, id: u32) -> Option<&str> {
        let (s, e) = *self.meta.get(&id)?;
        std::str::from_utf8(&self.text[s..e]).ok()
    }

    fn field<'b>(l: &'b str, key: &str) -> Option<&'b str> {
        let mut from = 0;
        loop {
            let k = l[from..].find(key)? + from;
            let ok = k == 0 || matches!(l.as_bytes()[k - 1], b' ' | b'(');
            if ok {
                let r = &l[k + key.len()..];
                let e = if r.starts_with('"') {
                    return Some(&r[1..1 + r[1..].find('"')?]);
                } else {
                    r.find(|c| c == ',' || c == ')').unwrap_or(r.len())
                };
                return Some(&r[..e]);
            }
            from = k + key.len();
        }
    }

    fn mref(l: &str, key: &str) -> Option<u32> {
        Self::field(l, key)?.strip_prefix('!')?.parse().ok()
    }

    /// Source positions of a debug location: (function, file, line), innermost first.
    pub fn where_is(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = Vec::new();
        let mut cur = Some(dbg);
        while let Some(id) = cur {
            let l = match self.meta_line(id) {
                Some(l) => l,
                None => break,
            };
            if !l.contains("DILocation(") {
                break;
            }
            let line = Self::field(l, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut scope = Self::mref(l, "scope: ");
            let mut fname = String::new();
            let mut file = String::new();
            while let Some(s) = scope {
                let sl = match self.meta_line(s) {
                    Some(x) => x,
                    None => break,
                };
                if file.is_empty() {
                    if let Some(f) = Self::mref(sl, "file: ") {
                        if let Some(fl) = self.meta_line(f) {
                            file = Self::field(fl, "filename: ").unwrap_or("").to_string();
                            if !file.starts_with('/') {
                                if let Some(d) = Self::field(fl, "directory: ") {
                                    file = format!("{}/{}", d, file);
                                }
                            }
                        }
                    }
                }
                if sl.contains("DISubprogram(") {
                    fname = Self::field(sl, "name: ").unwrap_or("").to_string();
                    let mut sc = Self::mref(sl, "scope: ");
                    let mut path = Vec::new();
                    while let Some(x) = sc {
                        let xl = match self.meta_line(x) {
                            Some(x) => x,
                            None => break,
                        };
                        if let Some(n) = Self::field(xl, "name: ") {
                            path.push(n.to_string());
                        }
                        sc = Self::mref(xl, "scope: ");
                    }
                    path.reverse();
                    path.push(fname);
                    fname = path.join("::");
                    break;
                }
                scope = Self::mref(sl, "scope: ");
            }
            out.push((fname, file, line));
            cur = Self::mref(l, "inlinedAt: ");
        }
        out
    }
}
