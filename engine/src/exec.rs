//! Path-forking symbolic interpreter for LLVM IR.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    S(E),
    /// Undefined scalar of the given width.
    U(u32),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Stack,
    Heap,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub ro: bool,
    /// One expression per byte; 0 means uninitialised.
    pub bytes: Vec<E>,
}

pub struct Model {
    id: u64,
    vals: Vec<u128>,
}

impl Model {
    fn get(&self, s: u32) -> u128 {
        self.vals.get(s as usize).copied().unwrap_or(0)
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    block: u32,
    prev: u32,
    ip: usize,
    dst: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    objs: Rc<BTreeMap<u64, Rc<Obj>>>,
    cons: Rc<Vec<E>>,
    eqs: Rc<HashMap<E, E>>,
    model: Rc<Model>,
    next: u64,
    inputs: Rc<Vec<Vec<u32>>>,
    covers: Rc<BTreeSet<String>>,
    steps: u64,
    live_heap: u64,
    trace: Rc<Vec<String>>,
    outs: Rc<Vec<Vec<E>>>,
    alloc_limit: u64,
    /// Allocations until one fails; 0 for never.
    fail_after: u64,
    /// An allocation has failed.
    failed: bool,
}

pub enum Stop {
    Done,
    /// The program ended in the allocation error handler, as asked for.
    OutOfMemory,
    Assumed,
    Violation(&'static str, String),
    Inconclusive(String),
}

type R<T> = Result<T, Stop>;

pub struct Found {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<(String, String, u32)>,
    pub inputs: Vec<Vec<u8>>,
    pub trace: Vec<String>,
}

/// A completed path together with inputs that follow it and what was observed on the way.
pub struct Witness {
    pub inputs: Vec<Vec<u8>>,
    pub covers: Vec<String>,
    pub outs: Vec<Vec<u8>>,
    pub aborts: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Nop,
    Assume,
    Memcpy,
    Memset,
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    Malloc,
    Calloc,
    Free,
    Realloc,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Strlen,
    Getenv,
    RandomKeys,
    Panic,
    PanicNounwind,
    AllocError,
    Abort,
    Bin2(&'static str),
    Unary(&'static str),
    Fsh(bool),
    IsConstant,
    Identity,
    SymBytes,
    SymAssume,
    SymFail,
    SymCover,
    SymConcretize,
    SymTrace,
    SymOut,
    SymLimit,
    SymFailAlloc,
    SymLive,
    SymDone,
    Zero,
}

#[derive(Clone)]
enum Target {
    Builtin(B),
    Fun(Rc<Func>),
    Missing(String),
}

pub struct Limits {
    pub time: f64,
    pub after_violation: f64,
    pub max_steps: u64,
    pub alloc_limit: u64,
    pub max_found: usize,
    pub witnesses: usize,
    pub seed: u64,
}

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub sv: Solver,
    pub work: Vec<State>,
    globals: BTreeMap<u64, Rc<Obj>>,
    gaddr: HashMap<String, u64>,
    faddr: HashMap<u64, String>,
    csts: HashMap<*const Cst, Val, BuildFx>,
    targets: HashMap<*const CallI, Target, BuildFx>,
    model_ids: u64,
    eval_model: u64,
    pub limits: Limits,
    pub start: Instant,
    pub first_violation: Option<Instant>,
    pub paths: u64,
    pub assumed: u64,
    pub steps: u64,
    pub forks: u64,
    pub found: Vec<Found>,
    pub witnesses: Vec<Witness>,
    seed: u64,
    found_keys: HashSet<String>,
    pub inconclusive: BTreeMap<String, u64>,
    pub covers: BTreeSet<String>,
    pub seen: Vec<bool>,
    pub fns: BTreeSet<String>,
    pub ended: BTreeMap<String, u64>,
    pub timed_out: bool,
    bool_t: E,
}

const GLOBAL_BASE: u64 = 0x0100_0000;
const FN_BASE: u64 = 0x4000_0000;
const HEAP_BASE: u64 = 0x5000_0000;

fn inc<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Inconclusive(s.into()))
}

fn viol<T>(k: &'static str, s: impl Into<String>) -> R<T> {
    Err(Stop::Violation(k, s.into()))
}

impl Engine {
    pub fn new(m: Module, limits: Limits, smt_timeout_ms: u32) -> Result<Engine, String> {
        let mut ar = Arena::new();
        let bool_t = ar.tru();
        let mut e = Engine {
            m,
            ar,
            sv: Solver::new(smt_timeout_ms),
            work: Vec::new(),
            globals: BTreeMap::new(),
            gaddr: HashMap::new(),
            faddr: HashMap::new(),
            csts: HashMap::default(),
            targets: HashMap::default(),
            model_ids: 1,
            eval_model: 0,
            limits,
            start: Instant::now(),
            first_violation: None,
            paths: 0,
            assumed: 0,
            steps: 0,
            forks: 0,
            found: Vec::new(),
            witnesses: Vec::new(),
            seed: 0,
            found_keys: HashSet::new(),
            inconclusive: BTreeMap::new(),
            covers: BTreeSet::new(),
            seen: Vec::new(),
            fns: BTreeSet::new(),
            ended: BTreeMap::new(),
            timed_out: false,
            bool_t,
        };
        e.layout()?;
        Ok(e)
    }

    fn layout(&mut self) -> Result<(), String> {
        let mut a = GLOBAL_BASE;
        for g in &self.m.globals {
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            self.gaddr.insert(g.name.clone(), a);
            a += g.ty.size() + 48;
        }
        let mut f = FN_BASE;
        for n in self.m.fn_order.iter().chain(self.m.declared.iter()) {
            self.gaddr.insert(n.clone(), f);
            self.faddr.insert(f, n.clone());
            f += 16;
        }
        let gs = std::mem::take(&mut self.m.globals);
        for g in &gs {
            let size = g.ty.size();
            let mut bytes = vec![0; size as usize];
            match &g.init {
                Some(c) => self.init_bytes(&g.ty, c, 0, &mut bytes)?,
                None => continue,
            }
            let o = Obj {
                size,
                align: g.align,
                kind: Kind::Global,
                ro: g.constant,
                bytes,
            };
            self.globals.insert(self.gaddr[&g.name], Rc::new(o));
        }
        self.m.globals = gs;
        Ok(())
    }

    fn init_bytes(&mut self, ty: &Ty, c: &Cst, off: u64, out: &mut Vec<E>) -> Result<(), String> {
        match c {
            Cst::Undef => {}
            Cst::Zero => {
                let z = self.ar.konst(8, 0);
                for i in 0..ty.size() {
                    out[(off + i) as usize] = z;
                }
            }
            Cst::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    out[off as usize + i] = self.ar.konst(8, *x as u128);
                }
            }
            Cst::Agg(v) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    self.init_bytes(t, c, off + ty.field_off(i), out)?;
                }
            }
            Cst::Splat(b) => {
                for i in 0..ty.count() {
                    self.init_bytes(&b.0, &b.1, off + ty.field_off(i), out)?;
                }
            }
            _ => {
                let v = self.cst_val(ty, c)?;
                self.put(out, off as usize, ty, &v);
            }
        }
        Ok(())
    }

    fn cst_int(&mut self, ty: &Ty, c: &Cst) -> Result<u128, String> {
        match self.cst_val(ty, c)? {
            Val::S(e) => self.ar.val(e).ok_or_else(|| "non-constant constant".to_string()),
            _ => Err("bad constant operand".into()),
        }
    }

    fn cst_val(&mut self, ty: &Ty, c: &Cst) -> Result<Val, String> {
        let pb = ptr_bits();
        Ok(match c {
            Cst::Int(k) => Val::S(self.ar.konst(ty.bits() as u32, *k)),
            Cst::Undef => self.undef(ty),
            Cst::Zero => self.zero(ty),
            Cst::Agg(v) => {
                let mut r = Vec::new();
                for (t, c) in v {
                    r.push(self.cst_val(t, c)?);
                }
                Val::A(Rc::new(r))
            }
            Cst::Bytes(b) => Val::A(Rc::new(
                b.iter().map(|x| Val::S(self.ar.konst(8, *x as u128))).collect(),
            )),
            Cst::Splat(b) => {
                let v = self.cst_val(&b.0, &b.1)?;
                Val::A(Rc::new(vec![v; ty.count()]))
            }
            Cst::Global(n) => {
                // An undefined (weak) external resolves to null, as in a process without it.
                let a = match self.gaddr.get(n) {
                    Some(a) => *a,
                    None => return Err(format!("unknown global {}", n)),
                };
                let weak = a < FN_BASE && self.m.globals.iter().any(|g| &g.name == n && g.init.is_none());
                Val::S(self.ar.konst(pb, if weak { 0 } else { a as u128 }))
            }
            Cst::Gep(t, p, idx) => {
                let mut a = self.cst_int(&Ty::Ptr, p)?;
                let mut cur = t.clone();
                for (i, (it, ic)) in idx.iter().enumerate() {
                    let k = self.cst_int(it, ic)?;
                    let k = sext(k, it.bits() as u32);
                    if i == 0 {
                        a = a.wrapping_add((k * cur.size() as i128) as u128);
                    } else {
                        a = a.wrapping_add(cur.field_off(k as usize) as u128);
                        cur = cur.elem(k as usize);
                    }
                }
                Val::S(self.ar.konst(pb, a))
            }
            Cst::Cast(_, t, c, to) => {
                let v = self.cst_int(t, c)?;
                Val::S(self.ar.konst(to.bits() as u32, v))
            }
            Cst::Bin(op, t, a, b) => {
                let x = self.cst_int(t, a)?;
                let y = self.cst_int(t, b)?;
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    _ => return Err(format!("constant operator {}", op)),
                };
                Val::S(self.ar.konst(t.bits() as u32, r))
            }
            Cst::Meta => Val::U(1),
        })
    }

    fn undef(&self, ty: &Ty) -> Val {
        if ty.is_agg() {
            Val::A(Rc::new((0..ty.count()).map(|i| self.undef(&ty.elem(i))).collect()))
        } else {
            Val::U(ty.bits() as u32)
        }
    }

    fn zero(&mut self, ty: &Ty) -> Val {
        if ty.is_agg() {
            Val::A(Rc::new((0..ty.count()).map(|i| self.zero(&ty.elem(i))).collect()))
        } else {
            Val::S(self.ar.konst(ty.bits() as u32, 0))
        }
    }

    /// Writes `v` into a byte vector at `off`.
    fn put(&mut self, out: &mut Vec<E>, off: usize, ty: &Ty, v: &Val) {
        match v {
            Val::A(vs) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        let e = self.vec_to_int(ty, v);
                        let t = Ty::Int(ty.bits() as u32);
                        return self.put(out, off, &t, &e);
                    }
                }
                for (i, x) in vs.iter().enumerate() {
                    self.put(out, off + ty.field_off(i) as usize, &ty.elem(i), x);
                }
            }
            Val::U(_) => {
                for i in 0..ty.store_size() as usize {
                    out[off + i] = 0;
                }
            }
            Val::S(e) => {
                let n = ty.store_size() as usize;
                let e = self.ar.zext(*e, n as u32 * 8);
                for i in 0..n {
                    let b = self.ar.extract(e, i as u32 * 8, 8);
                    let k = if big_endian() { n - 1 - i } else { i };
                    out[off + k] = b;
                }
            }
        }
    }

    fn get(&mut self, bytes: &mut [E], off: usize, ty: &Ty, touched: &mut bool) -> Val {
        if ty.is_agg() {
            if let Ty::Vec(_, t) = ty {
                if t.bits() % 8 != 0 {
                    let it = Ty::Int(ty.bits() as u32);
                    let v = self.get(bytes, off, &it, touched);
                    return self.int_to_vec(ty, v);
                }
            }
            let n = ty.count();
            let mut r = Vec::with_capacity(n);
            for i in 0..n {
                r.push(self.get(bytes, off + ty.field_off(i) as usize, &ty.elem(i), touched));
            }
            return Val::A(Rc::new(r));
        }
        let n = ty.store_size() as usize;
        let w = ty.bits() as u32;
        if n == 0 {
            return Val::U(1);
        }
        let sl = &mut bytes[off..off + n];
        let undef = sl.iter().filter(|b| **b == 0).count();
        if undef == n {
            return Val::U(w);
        }
        if undef > 0 {
            for b in sl.iter_mut() {
                if *b == 0 {
                    *b = self.ar.sym(8, "undef".into());
                    *touched = true;
                }
            }
        }
        let mut e = 0;
        let mut all_const = true;
        let mut k: u128 = 0;
        for i in (0..n).rev() {
            let j = if big_endian() { n - 1 - i } else { i };
            match self.ar.val(sl[j]) {
                Some(v) => k = (k << 8) | v,
                None => {
                    all_const = false;
                    break;
                }
            }
        }
        if all_const {
            return Val::S(self.ar.konst(w, k));
        }
        for i in (0..n).rev() {
            let j = if big_endian() { n - 1 - i } else { i };
            e = if e == 0 { sl[j] } else { self.ar.concat(e, sl[j]) };
        }
        if n as u32 * 8 != w {
            e = self.ar.extract(e, 0, w);
        }
        Val::S(e)
    }

    fn vec_to_int(&mut self, ty: &Ty, v: &Val) -> Val {
        let vs = match v {
            Val::A(vs) => vs.clone(),
            x => return x.clone(),
        };
        let ew = ty.elem(0).bits() as u32;
        let mut e = 0;
        for i in 0..vs.len() {
            let x = match &vs[i] {
                Val::S(x) => *x,
                _ => self.ar.sym(ew, "undef".into()),
            };
            e = if e == 0 {
                x
            } else if big_endian() {
                self.ar.concat(e, x)
            } else {
                self.ar.concat(x, e)
            };
        }
        Val::S(e)
    }

    fn int_to_vec(&mut self, ty: &Ty, v: Val) -> Val {
        let n = ty.count();
        let ew = ty.elem(0).bits() as u32;
        match v {
            Val::S(e) => Val::A(Rc::new(
                (0..n)
                    .map(|i| {
                        let k = if big_endian() { n - 1 - i } else { i };
                        Val::S(self.ar.extract(e, k as u32 * ew, ew))
                    })
                    .collect(),
            )),
            _ => self.undef(ty),
        }
    }

    // ---------------------------------------------------------------- states

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let f = self.m.func(entry)?;
        if !f.params.is_empty() {
            return Err("entry function takes parameters".into());
        }
        self.model_ids += 1;
        Ok(State {
            frames: vec![Rc::new(Frame {
                regs: vec![Val::U(1); f.nregs as usize],
                f,
                block: 0,
                prev: 0,
                ip: 0,
                dst: None,
                normal: None,
                allocas: vec![],
            })],
            objs: Rc::new(BTreeMap::new()),
            cons: Rc::new(vec![]),
            eqs: Rc::new(HashMap::new()),
            model: Rc::new(Model {
                id: self.model_ids,
                vals: vec![],
            }),
            next: HEAP_BASE,
            inputs: Rc::new(vec![]),
            covers: Rc::new(BTreeSet::new()),
            steps: 0,
            live_heap: 0,
            trace: Rc::new(vec![]),
            outs: Rc::new(Vec::new()),
            alloc_limit: self.limits.alloc_limit,
            fail_after: 0,
            failed: false,
        })
    }

    fn eval_m(&mut self, m: &Rc<Model>, e: E) -> u128 {
        if self.eval_model != m.id {
            self.ar.stamp += 1;
            self.eval_model = m.id;
        }
        let mm = m.clone();
        self.ar.eval(e, &|s| mm.get(s))
    }

    fn sv_check(&mut self, cons: &[E], q: E) -> Verdict {
        let r = self.sv.check(&mut self.ar, cons, q);
        self.eval_model = 0;
        r
    }

    fn merged(&mut self, m: &Model, vals: &[(u32, u128)]) -> Rc<Model> {
        self.model_ids += 1;
        let mut v = m.vals.clone();
        for (s, x) in vals {
            if v.len() <= *s as usize {
                v.resize(*s as usize + 1, 0);
            }
            v[*s as usize] = *x;
        }
        Rc::new(Model {
            id: self.model_ids,
            vals: v,
        })
    }

    fn simp(&mut self, st: &State, e: E) -> E {
        if self.ar.val(e).is_some() || st.eqs.is_empty() {
            return e;
        }
        let mut memo = HashMap::new();
        let eqs = st.eqs.clone();
        let mut cur = e;
        // A second round catches facts that only match after the first rewriting.
        for _ in 0..2 {
            let n = self.ar.subst(cur, &eqs, &mut memo);
            if n == cur {
                break;
            }
            cur = n;
            if self.ar.val(cur).is_some() {
                break;
            }
            memo.clear();
        }
        cur
    }

    fn learn(&mut self, st: &mut State, c: E) {
        let n = self.ar.n(c);
        let t = self.bool_t;
        let f = self.ar.fls();
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.learn(st, n.a);
            self.learn(st, n.b);
        }
        let eqs = Rc::make_mut(&mut st.eqs);
        eqs.insert(c, t);
        if n.op == Op::Eq && self.ar.val(n.b).is_some() {
            eqs.insert(n.a, n.b);
        }
        if n.op == Op::Xor && self.ar.val(n.b) == Some(1) {
            eqs.insert(n.a, f);
            let x = self.ar.n(n.a);
            if x.op == Op::Or {
                let p = self.ar.not(x.a);
                let q = self.ar.not(x.b);
                self.learn(st, p);
                self.learn(st, q);
            }
        }
    }

    fn add(&mut self, st: &mut State, c: E) {
        let n = self.ar.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Const {
            return;
        }
        if !st.cons.contains(&c) {
            Rc::make_mut(&mut st.cons).push(c);
        }
        self.learn(st, c);
    }

    /// Truth value of `c` in this state; if both are possible the other side is queued.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        let c = self.simp(st, c);
        if let Some(v) = self.ar.val(c) {
            return Ok(v == 1);
        }
        let model = st.model.clone();
        let here = self.eval_m(&model, c) == 1;
        let nc = self.ar.not(c);
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        let cons = st.cons.clone();
        match self.sv_check(&cons, other) {
            Verdict::Unsat => {
                self.learn(st, mine);
                Ok(here)
            }
            Verdict::Sat(vals) => {
                self.forks += 1;
                let mut o = st.clone();
                o.model = self.merged(&model, &vals);
                self.add(&mut o, other);
                self.work.push(o);
                self.add(st, mine);
                Ok(here)
            }
            Verdict::Unknown => inc("solver gave up on a branch condition"),
        }
    }

    /// Adds an assumption; the path ends if it cannot hold.
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        let c = self.simp(st, c);
        match self.ar.val(c) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::Assumed),
            None => {}
        }
        let model = st.model.clone();
        if self.eval_m(&model, c) == 1 {
            self.add(st, c);
            return Ok(());
        }
        let cons = st.cons.clone();
        match self.sv_check(&cons, c) {
            Verdict::Unsat => Err(Stop::Assumed),
            Verdict::Sat(vals) => {
                st.model = self.merged(&model, &vals);
                self.add(st, c);
                Ok(())
            }
            Verdict::Unknown => inc("solver gave up on an assumption"),
        }
    }

    /// A concrete value of `e`; other possible values are explored in forked states.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        let e = self.simp(st, e);
        if let Some(v) = self.ar.val(e) {
            return Ok(v);
        }
        let model = st.model.clone();
        let v = self.eval_m(&model, e);
        let w = self.ar.w(e);
        let k = self.ar.konst(w, v);
        let c = self.ar.bin(Op::Eq, e, k);
        if !self.decide(st, c)? {
            return inc("internal: concretisation lost its model");
        }
        Ok(v)
    }

    fn scalar(&mut self, v: &Val) -> R<E> {
        match v {
            Val::S(e) => Ok(*e),
            Val::U(w) => Ok(self.ar.sym((*w).max(1), "undef".into())),
            Val::A(_) => inc("aggregate used as scalar"),
        }
    }

    // ---------------------------------------------------------------- memory

    fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, fill: E) -> u64 {
        let al = align.max(16);
        let a = (st.next + 32 + al - 1) / al * al;
        st.next = a + size;
        let o = Obj {
            size,
            align,
            kind,
            ro: false,
            bytes: vec![fill; size as usize],
        };
        Rc::make_mut(&mut st.objs).insert(a, Rc::new(o));
        a
    }

    fn find(&self, st: &State, a: u64) -> Option<(u64, Rc<Obj>)> {
        let look = |m: &BTreeMap<u64, Rc<Obj>>| {
            m.range(..=a)
                .next_back()
                .filter(|(b, o)| a <= **b + o.size)
                .map(|(b, o)| (*b, o.clone()))
        };
        if a >= HEAP_BASE {
            return look(&st.objs);
        }
        if a >= FN_BASE {
            return None;
        }
        let g = look(&self.globals)?;
        if let Some(o) = st.objs.get(&g.0) {
            return Some((g.0, o.clone()));
        }
        Some(g)
    }

    /// Finds the object for an access of `n` bytes. The offset may stay symbolic.
    fn resolve(&mut self, st: &mut State, p: E, n: u64, write: bool) -> R<(u64, E)> {
        let p = self.simp(st, p);
        let pb = ptr_bits();
        if let Some(a) = self.ar.val(p) {
            let a = a as u64;
            return match self.find(st, a) {
                Some((b, o)) if a + n <= b + o.size => {
                    if write && o.ro {
                        return viol("memory", format!("write of {} bytes to constant data", n));
                    }
                    Ok((b, self.ar.konst(pb, (a - b) as u128)))
                }
                Some((b, o)) => viol(
                    "memory",
                    format!(
                        "{} of {} bytes at offset {} of a {}-byte {:?} object",
                        if write { "write" } else { "read" },
                        n,
                        a - b,
                        o.size,
                        o.kind
                    ),
                ),
                None => viol(
                    "memory",
                    format!(
                        "{} of {} bytes at invalid or freed address {:#x}",
                        if write { "write" } else { "read" },
                        n,
                        a
                    ),
                ),
            };
        }
        let model = st.model.clone();
        let a = self.eval_m(&model, p) as u64;
        match self.find(st, a) {
            Some((b, o)) if a + n <= b + o.size => {
                let base = self.ar.konst(pb, b as u128);
                let off = self.ar.sub(p, base);
                let lim = self.ar.konst(pb, (o.size - n) as u128);
                let c = self.ar.bin(Op::Ule, off, lim);
                if !self.decide(st, c)? {
                    return inc("internal: lost object bound");
                }
                if write && o.ro {
                    return viol("memory", format!("write of {} bytes to constant data", n));
                }
                let off = self.simp(st, off);
                Ok((b, off))
            }
            _ => {
                // Fix the address to this model so that the report is precise.
                let k = self.ar.konst(pb, a as u128);
                let c = self.ar.bin(Op::Eq, p, k);
                self.decide(st, c)?;
                viol(
                    "memory",
                    format!(
                        "{} of {} bytes at out-of-bounds address",
                        if write { "write" } else { "read" },
                        n
                    ),
                )
            }
        }
    }

    fn obj(&self, st: &State, b: u64) -> Rc<Obj> {
        match st.objs.get(&b) {
            Some(o) => o.clone(),
            None => self.globals[&b].clone(),
        }
    }

    fn obj_mut<'a>(&self, st: &'a mut State, b: u64) -> &'a mut Obj {
        let m = Rc::make_mut(&mut st.objs);
        let o = m.entry(b).or_insert_with(|| self.globals[&b].clone());
        Rc::make_mut(o)
    }

    fn load(&mut self, st: &mut State, p: E, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(self.undef(ty));
        }
        let (b, off) = self.resolve(st, p, n, false)?;
        let o = self.obj(st, b);
        if let Some(k) = self.ar.val(off) {
            let k = k as usize;
            // Fast path: no uninitialised byte in the range.
            let mut bytes: Vec<E> = o.bytes[k..k + n as usize].to_vec();
            let mut touched = false;
            let v = self.get(&mut bytes, 0, ty, &mut touched);
            if touched {
                let ob = self.obj_mut(st, b);
                ob.bytes[k..k + n as usize].copy_from_slice(&bytes);
            }
            return Ok(v);
        }
        // Symbolic offset: table lookup, or case split if the table is too irregular.
        if !ty.is_agg() && o.ro && o.size <= 4096 {
            let (lo_bits, lo_val) = self.low_bits(off);
            let step = 1u64 << lo_bits.min(12);
            let mut runs: Vec<(u64, E)> = Vec::new();
            let mut k = lo_val as u64 & (step - 1);
            let mut ok = true;
            while k + n <= o.size {
                let mut bytes: Vec<E> = o.bytes[k as usize..(k + n) as usize].to_vec();
                let mut touched = false;
                if bytes.iter().any(|b| *b == 0) {
                    ok = false;
                    break;
                }
                let v = match self.get(&mut bytes, 0, ty, &mut touched) {
                    Val::S(e) => e,
                    _ => {
                        ok = false;
                        break;
                    }
                };
                if runs.last().map_or(true, |r| r.1 != v) {
                    runs.push((k, v));
                }
                k += step;
                if runs.len() > 300 {
                    ok = false;
                    break;
                }
            }
            if ok && !runs.is_empty() {
                let pb = ptr_bits();
                let mut e = runs.last().unwrap().1;
                for i in (0..runs.len() - 1).rev() {
                    let lim = self.ar.konst(pb, runs[i + 1].0 as u128);
                    let c = self.ar.bin(Op::Ult, off, lim);
                    e = self.ar.ite(c, runs[i].1, e);
                }
                return Ok(Val::S(e));
            }
        }
        let k = self.concretize(st, off)? as u64;
        let a = self.ar.konst(ptr_bits(), (b + k) as u128);
        self.load(st, a, ty)
    }

    fn low_bits(&self, e: E) -> (u32, u128) {
        let n = self.ar.n(e);
        match n.op {
            Op::Const => (n.w as u32, n.k),
            Op::Concat => {
                let (b, v) = self.low_bits(n.b);
                if b == self.ar.w(n.b) {
                    (b, v)
                } else {
                    (b, v)
                }
            }
            Op::ZExt => self.low_bits(n.a),
            Op::Add => {
                let (b1, v1) = self.low_bits(n.a);
                let (b2, v2) = self.low_bits(n.b);
                let b = b1.min(b2);
                (b, v1.wrapping_add(v2) & mask(b.max(1)))
            }
            Op::Mul => {
                if let Some(k) = self.ar.val(n.b) {
                    (k.trailing_zeros().min(n.w as u32), 0)
                } else {
                    (0, 0)
                }
            }
            _ => (0, 0),
        }
    }

    fn store(&mut self, st: &mut State, p: E, ty: &Ty, v: &Val) -> R<()> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        let (b, off) = self.resolve(st, p, n, true)?;
        let k = self.concretize(st, off)? as usize;
        let mut tmp: Vec<E> = {
            let o = self.obj(st, b);
            o.bytes[k..k + n as usize].to_vec()
        };
        self.put(&mut tmp, 0, ty, v);
        let o = self.obj_mut(st, b);
        o.bytes[k..k + n as usize].copy_from_slice(&tmp);
        Ok(())
    }

    /// `n` bytes at `p`, concretising the address.
    fn bytes_at(&mut self, st: &mut State, p: E, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, off) = self.resolve(st, p, n, false)?;
        let k = self.concretize(st, off)? as usize;
        let o = self.obj(st, b);
        Ok(o.bytes[k..k + n as usize].to_vec())
    }

    /// Like `bytes_at`, with uninitialised bytes replaced by fresh unknowns.
    fn defined_bytes_at(&mut self, st: &mut State, p: E, n: u64) -> R<Vec<E>> {
        let mut v = self.bytes_at(st, p, n)?;
        let mut touched = false;
        for b in v.iter_mut() {
            if *b == 0 {
                *b = self.ar.sym(8, "undef".into());
                touched = true;
            }
        }
        if touched {
            self.write_bytes(st, p, &v)?;
        }
        Ok(v)
    }

    fn write_bytes(&mut self, st: &mut State, p: E, data: &[E]) -> R<()> {
        if data.is_empty() {
            return Ok(());
        }
        let (b, off) = self.resolve(st, p, data.len() as u64, true)?;
        let k = self.concretize(st, off)? as usize;
        let o = self.obj_mut(st, b);
        o.bytes[k..k + data.len()].copy_from_slice(data);
        Ok(())
    }

    fn string_at(&mut self, st: &mut State, p: E, n: u64) -> R<String> {
        let v = self.bytes_at(st, p, n)?;
        let b: Vec<u8> = v
            .iter()
            .map(|e| if *e == 0 { b'?' } else { self.ar.val(*e).unwrap_or(b'?' as u128) as u8 })
            .collect();
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    fn alloc_size(&mut self, st: &mut State, e: E) -> R<u64> {
        let w = self.ar.w(e);
        let lim = self.ar.konst(w, st.alloc_limit as u128);
        let c = self.ar.bin(Op::Ule, e, lim);
        if !self.decide(st, c)? {
            return viol(
                "alloc",
                format!("allocation of more than {} bytes requested", st.alloc_limit),
            );
        }
        Ok(self.concretize(st, e)? as u64)
    }

    /// Whether this is the allocation that is to fail.
    fn refuse(st: &mut State) -> bool {
        if st.fail_after == 0 {
            return false;
        }
        st.fail_after -= 1;
        st.failed |= st.fail_after == 0;
        st.fail_after == 0
    }

    fn free(&mut self, st: &mut State, p: E, layout: Option<(u64, u64)>) -> R<()> {
        let a = self.concretize(st, p)? as u64;
        match st.objs.get(&a) {
            Some(o) if o.kind == Kind::Heap => {
                if let Some((s, al)) = layout {
                    if o.size != s || o.align != al {
                        return viol(
                            "memory",
                            format!(
                                "memory allocated with size {} align {} released with size {} align {}",
                                o.size, o.align, s, al
                            ),
                        );
                    }
                }
                st.live_heap -= o.size;
                Rc::make_mut(&mut st.objs).remove(&a);
                Ok(())
            }
            _ => viol("memory", "release of a pointer that is not a live heap block"),
        }
    }

    // ---------------------------------------------------------------- running

    fn opd(&mut self, st: &State, o: &Opd) -> R<Val> {
        match o {
            Opd::R(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Opd::C(t, c) => {
                let key = Rc::as_ptr(c);
                if let Some(v) = self.csts.get(&key) {
                    return Ok(v.clone());
                }
                match self.cst_val(t, c) {
                    Ok(v) => {
                        self.csts.insert(key, v.clone());
                        Ok(v)
                    }
                    Err(e) => inc(e),
                }
            }
        }
    }

    fn ev(&mut self, st: &State, o: &Opd) -> R<E> {
        let v = self.opd(st, o)?;
        self.scalar(&v)
    }

    fn top(st: &mut State) -> &mut Frame {
        Rc::make_mut(st.frames.last_mut().unwrap())
    }

    fn set(&mut self, st: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            Self::top(st).regs[d as usize] = v;
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let from = st.frames.last().unwrap().block;
        let f = st.frames.last().unwrap().f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for ph in &blk.phis {
                let o = match ph.inc.iter().find(|(b, _)| *b == from) {
                    Some((_, o)) => o,
                    None => return inc("phi without an edge"),
                };
                vals.push(self.opd(st, o)?);
            }
            let fr = Self::top(st);
            for (ph, v) in blk.phis.iter().zip(vals) {
                fr.regs[ph.dst as usize] = v;
            }
        }
        let fr = Self::top(st);
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        Ok(())
    }

    pub fn record_end(&mut self, st: &State, stop: Stop) {
        match stop {
            Stop::Done | Stop::OutOfMemory => {
                let aborts = matches!(stop, Stop::OutOfMemory);
                self.paths += 1;
                self.keep_witness(st, aborts);
                if aborts {
                    self.covers.insert("out of memory".into());
                }
                for c in st.covers.iter() {
                    if !self.covers.contains(c) {
                        self.covers.insert(c.clone());
                    }
                }
            }
            Stop::Assumed => self.assumed += 1,
            Stop::Inconclusive(m) => {
                let w = self.location(st);
                let w = w.first().map(|x| format!(" [{} {}:{}]", x.0, x.1, x.2)).unwrap_or_default();
                *self.inconclusive.entry(format!("{}{}", m, w)).or_insert(0) += 1;
            }
            Stop::Violation(kind, msg) => {
                self.paths += 1;
                let stack = self.location(st);
                let src = stack
                    .iter()
                    .find(|x| x.1.contains("/repo/") || x.1.contains("/harness/"))
                    .map(|x| format!("{}:{}", x.1, x.2))
                    .unwrap_or_default();
                let key = format!("{}|{}|{}", kind, msg, src);
                if self.first_violation.is_none() {
                    self.first_violation = Some(Instant::now());
                }
                if self.found_keys.len() < self.limits.max_found && self.found_keys.insert(key) {
                    let model = st.model.clone();
                    let inputs = st
                        .inputs
                        .iter()
                        .map(|v| v.iter().map(|s| model.get(*s) as u8).collect())
                        .collect();
                    self.found.push(Found {
                        kind: kind.to_string(),
                        msg,
                        stack,
                        inputs,
                        trace: st.trace.to_vec(),
                    });
                }
            }
        }
    }

    /// Reservoir sampling over the completed paths.
    fn keep_witness(&mut self, st: &State, aborts: bool) {
        let cap = self.limits.witnesses;
        if cap == 0 {
            return;
        }
        if self.seed == 0 {
            self.seed = self.limits.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
        }
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        let slot = if self.witnesses.len() < cap {
            self.witnesses.len()
        } else {
            let k = (self.seed >> 11) % self.paths;
            if k >= cap as u64 {
                return;
            }
            k as usize
        };
        let model = st.model.clone();
        let inputs = st
            .inputs
            .iter()
            .map(|v| v.iter().map(|s| model.get(*s) as u8).collect())
            .collect();
        let mut outs = Vec::new();
        for v in st.outs.iter() {
            let mut b = Vec::new();
            for e in v {
                b.push(self.eval_m(&model, *e) as u8);
            }
            outs.push(b);
        }
        let w = Witness {
            inputs,
            covers: st.covers.iter().cloned().collect(),
            outs,
            aborts,
        };
        if slot == self.witnesses.len() {
            self.witnesses.push(w);
        } else {
            self.witnesses[slot] = w;
        }
    }

    /// Source positions of the current instruction and its callers, innermost first.
    fn location(&self, st: &State) -> Vec<(String, String, u32)> {
        let mut out = Vec::new();
        for (i, fr) in st.frames.iter().enumerate().rev() {
            let b = &fr.f.blocks[fr.block as usize];
            let ip = if i + 1 == st.frames.len() { fr.ip } else { fr.ip.saturating_sub(1) };
            let d = b.insts.get(ip).map(|x| x.dbg).unwrap_or(0);
            let w = self.m.where_is(d);
            if w.is_empty() {
                out.push((fr.f.demangled.clone(), String::new(), 0));
            } else {
                out.extend(w);
            }
            if out.len() > 60 {
                break;
            }
        }
        out
    }

    /// Forgets everything already reported by the process this one was forked from.
    pub fn reset(&mut self) {
        self.paths = 0;
        self.assumed = 0;
        self.steps = 0;
        self.forks = 0;
        self.sv.queries = 0;
        self.sv.sat = 0;
        self.sv.unsat = 0;
        self.sv.unknown = 0;
        self.sv.cached = 0;
        self.sv.time = 0.0;
        self.found.clear();
        self.witnesses.clear();
        self.inconclusive.clear();
    }

    pub fn out_of_time(&mut self) -> bool {
        if self.start.elapsed().as_secs_f64() > self.limits.time {
            self.timed_out = true;
            return true;
        }
        if let Some(t) = self.first_violation {
            if t.elapsed().as_secs_f64() > self.limits.after_violation {
                return true;
            }
        }
        false
    }

    /// Runs one state until it ends. Forked siblings are pushed to `self.work`.
    pub fn run_path(&mut self, mut st: State) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 {
                if self.start.elapsed().as_secs_f64() > self.limits.time {
                    self.timed_out = true;
                    self.record_end(&st, Stop::Inconclusive("time limit".into()));
                    return;
                }
            }
            if st.steps > self.limits.max_steps {
                self.record_end(&st, Stop::Inconclusive("instruction budget of one path exhausted".into()));
                return;
            }
            if let Err(stop) = self.step(&mut st) {
                self.record_end(&st, stop);
                return;
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.steps += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = match f.blocks[fr.block as usize].insts.get(fr.ip) {
            Some(i) => i,
            None => return inc("fell off a block"),
        };
        if inst.dbg != 0 {
            let d = inst.dbg as usize;
            if d >= self.seen.len() {
                self.seen.resize(d + 1024, false);
            }
            self.seen[d] = true;
        }
        let dst = inst.dst;
        macro_rules! fin {
            ($v:expr) => {{
                let v = $v;
                let fr = Self::top(st);
                if let Some(d) = dst {
                    fr.regs[d as usize] = v;
                }
                fr.ip += 1;
                return Ok(());
            }};
        }
        match &inst.k {
            I::Bin(op, ty, a, b, ..) => {
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                let v = self.binop(st, *op, ty, &x, &y)?;
                fin!(v)
            }
            I::ICmp(p, ty, a, b) => {
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                let v = self.icmp(p, ty, &x, &y)?;
                fin!(v)
            }
            I::Cast(c, from, a, to) => {
                let x = self.opd(st, a)?;
                let v = self.cast(*c, from, &x, to)?;
                fin!(v)
            }
            I::Select(ct, ty, c, a, b) => {
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                if ct.is_agg() {
                    let cv = self.opd(st, c)?;
                    let v = match (&cv, &x, &y) {
                        (Val::A(cs), Val::A(xs), Val::A(ys)) => {
                            let mut r = Vec::new();
                            for i in 0..cs.len() {
                                let c = self.scalar(&cs[i])?;
                                let (p, q) = (self.scalar(&xs[i])?, self.scalar(&ys[i])?);
                                r.push(Val::S(self.ar.ite(c, p, q)));
                            }
                            Val::A(Rc::new(r))
                        }
                        _ => return inc("vector select"),
                    };
                    fin!(v)
                }
                let c = self.ev(st, c)?;
                if self.ar.val(c).is_none() && !(*ty == Ty::Ptr || ty.is_agg()) {
                    match (&x, &y) {
                        (Val::U(_), _) => fin!(y),
                        (_, Val::U(_)) => fin!(x),
                        _ => {}
                    }
                    let (p, q) = (self.scalar(&x)?, self.scalar(&y)?);
                    let c = self.simp(st, c);
                    let v = Val::S(self.ar.ite(c, p, q));
                    fin!(v)
                }
                let t = self.decide(st, c)?;
                fin!(if t { x } else { y })
            }
            I::Alloca(ty, n, _, al) => {
                let n = self.ev(st, n)?;
                let n = self.concretize(st, n)? as u64;
                let a = self.alloc(st, ty.size() * n, *al, Kind::Stack, 0);
                let v = Val::S(self.ar.konst(ptr_bits(), a as u128));
                Self::top(st).allocas.push(a);
                fin!(v)
            }
            I::Load(ty, p) => {
                let p = self.ev(st, p)?;
                let v = self.load(st, p, ty)?;
                fin!(v)
            }
            I::Store(ty, v, p) => {
                let v = self.opd(st, v)?;
                let p = self.ev(st, p)?;
                self.store(st, p, ty, &v)?;
                fin!(Val::U(1))
            }
            I::Gep(ty, p, idx) => {
                let v = self.gep(st, ty, p, idx)?;
                fin!(v)
            }
            I::Call(c) => self.call(st, c, dst),
            I::ExtractValue(_, a, ix) => {
                let mut v = self.opd(st, a)?;
                for i in ix {
                    v = match &v {
                        Val::A(vs) => vs[*i as usize].clone(),
                        x => x.clone(),
                    };
                }
                fin!(v)
            }
            I::InsertValue(ty, a, _, b, ix) => {
                let v = self.opd(st, a)?;
                let x = self.opd(st, b)?;
                let v = self.insert(ty, v, x, ix);
                fin!(v)
            }
            I::ExtractElement(_, a, i) => {
                let v = self.opd(st, a)?;
                let i = self.ev(st, i)?;
                let i = self.concretize(st, i)? as usize;
                match v {
                    Val::A(vs) if i < vs.len() => fin!(vs[i].clone()),
                    _ => inc("extractelement"),
                }
            }
            I::InsertElement(ty, a, x, i) => {
                let v = self.opd(st, a)?;
                let x = self.opd(st, x)?;
                let i = self.ev(st, i)?;
                let i = self.concretize(st, i)? as u32;
                let v = self.insert(ty, v, x, &[i]);
                fin!(v)
            }
            I::Shuffle(ty, a, b, mask) => {
                let n = ty.count();
                let x = self.opd(st, a)?;
                let y = self.opd(st, b)?;
                let ew = ty.elem(0).bits() as u32;
                let mut r = Vec::new();
                for m in mask {
                    r.push(match m {
                        None => Val::U(ew),
                        Some(k) => {
                            let (src, k) = if (*k as usize) < n { (&x, *k as usize) } else { (&y, *k as usize - n) };
                            match src {
                                Val::A(vs) => vs[k].clone(),
                                _ => Val::U(ew),
                            }
                        }
                    });
                }
                fin!(Val::A(Rc::new(r)))
            }
            I::Freeze(_, a) => {
                let v = self.opd(st, a)?;
                let v = self.freeze(v);
                fin!(v)
            }
            I::AtomicRmw(op, ty, p, x) => {
                let p = self.ev(st, p)?;
                let x = self.ev(st, x)?;
                let old = self.load(st, p, ty)?;
                let o = self.scalar(&old)?;
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.ar.bin(Op::Add, o, x),
                    "sub" => self.ar.sub(o, x),
                    "and" => self.ar.bin(Op::And, o, x),
                    "or" => self.ar.bin(Op::Or, o, x),
                    "xor" => self.ar.bin(Op::Xor, o, x),
                    "max" | "min" | "umax" | "umin" => {
                        let lt = if op.starts_with('u') { Op::Ult } else { Op::Slt };
                        let c = self.ar.bin(lt, o, x);
                        if op.ends_with("max") {
                            self.ar.ite(c, x, o)
                        } else {
                            self.ar.ite(c, o, x)
                        }
                    }
                    _ => return inc(format!("atomicrmw {}", op)),
                };
                self.store(st, p, ty, &Val::S(n))?;
                fin!(Val::S(o))
            }
            I::CmpXchg(ty, p, c, n) => {
                let p = self.ev(st, p)?;
                let c = self.ev(st, c)?;
                let n = self.opd(st, n)?;
                let old = self.load(st, p, ty)?;
                let o = self.scalar(&old)?;
                let eq = self.ar.bin(Op::Eq, o, c);
                let hit = self.decide(st, eq)?;
                if hit {
                    self.store(st, p, ty, &n)?;
                }
                let h = self.ar.konst(1, hit as u128);
                fin!(Val::A(Rc::new(vec![Val::S(o), Val::S(h)])))
            }
            I::Fence => fin!(Val::U(1)),
            I::Br(l) => self.jump(st, *l),
            I::CondBr(c, a, b) => {
                let c = self.ev(st, c)?;
                let t = self.decide(st, c)?;
                self.jump(st, if t { *a } else { *b })
            }
            I::Switch(ty, v, d, cs) => {
                let v = self.ev(st, v)?;
                let v = self.simp(st, v);
                let w = ty.bits() as u32;
                if let Some(k) = self.ar.val(v) {
                    let to = cs.iter().find(|(c, _)| (*c & mask(w)) == k).map(|x| x.1).unwrap_or(*d);
                    return self.jump(st, to);
                }
                let mut targets: Vec<u32> = Vec::new();
                for (_, t) in cs {
                    if !targets.contains(t) && t != d {
                        targets.push(*t);
                    }
                }
                for t in targets {
                    let mut c = self.ar.fls();
                    for (k, l) in cs {
                        if *l == t {
                            let kk = self.ar.konst(w, *k);
                            let e = self.ar.bin(Op::Eq, v, kk);
                            c = self.ar.bin(Op::Or, c, e);
                        }
                    }
                    if self.decide(st, c)? {
                        return self.jump(st, t);
                    }
                }
                self.jump(st, *d)
            }
            I::Ret(v) => {
                let v = match v {
                    Some((_, o)) => self.opd(st, o)?,
                    None => Val::U(1),
                };
                self.ret(st, v)
            }
            I::Unreachable => viol("ub", "unreachable code executed"),
            I::LandingPad | I::Resume => inc("unwinding"),
            I::Unsupported(s) => inc(format!("unsupported instruction {}", s)),
        }
    }

    fn ret(&mut self, st: &mut State, v: Val) -> R<()> {
        let fr = st.frames.pop().unwrap();
        if !fr.allocas.is_empty() {
            let m = Rc::make_mut(&mut st.objs);
            for a in &fr.allocas {
                m.remove(a);
            }
        }
        if st.frames.is_empty() {
            st.frames.push(fr);
            return Err(Stop::Done);
        }
        self.set(st, fr.dst, v);
        if let Some(n) = fr.normal {
            self.jump(st, n)?;
        }
        Ok(())
    }

    fn freeze(&mut self, v: Val) -> Val {
        match v {
            Val::U(w) => Val::S(self.ar.sym(w, "undef".into())),
            Val::A(vs) => Val::A(Rc::new(vs.iter().map(|x| self.freeze(x.clone())).collect())),
            x => x,
        }
    }

    fn insert(&mut self, ty: &Ty, v: Val, x: Val, ix: &[u32]) -> Val {
        if ix.is_empty() {
            return x;
        }
        let mut vs = match v {
            Val::A(vs) => (*vs).clone(),
            _ => match self.undef(ty) {
                Val::A(vs) => (*vs).clone(),
                _ => unreachable!(),
            },
        };
        let i = ix[0] as usize;
        let et = ty.elem(i);
        let old = vs[i].clone();
        vs[i] = self.insert(&et, old, x, &ix[1..]);
        Val::A(Rc::new(vs))
    }

    fn gep(&mut self, st: &mut State, ty: &Ty, p: &Opd, idx: &[(Ty, Opd)]) -> R<Val> {
        let pb = ptr_bits();
        let mut a = self.ev(st, p)?;
        let mut cur = ty.clone();
        for (i, (it, io)) in idx.iter().enumerate() {
            let k = self.ev(st, io)?;
            let iw = it.bits() as u32;
            if i > 0 {
                if let Ty::Struct(..) = cur {
                    let k = match self.ar.val(k) {
                        Some(k) => k as usize,
                        None => return inc("symbolic structure index"),
                    };
                    let o = self.ar.konst(pb, cur.field_off(k) as u128);
                    a = self.ar.bin(Op::Add, a, o);
                    cur = cur.elem(k);
                    continue;
                }
                cur = cur.elem(0);
            }
            let k = if iw < pb {
                self.ar.sext(k, pb)
            } else if iw > pb {
                self.ar.extract(k, 0, pb)
            } else {
                k
            };
            let sz = self.ar.konst(pb, cur.size() as u128);
            let k = self.mulc(k, sz);
            a = self.ar.bin(Op::Add, a, k);
        }
        Ok(Val::S(a))
    }

    fn mulc(&mut self, a: E, b: E) -> E {
        if let Some(k) = self.ar.val(b) {
            if k.is_power_of_two() && self.ar.val(a).is_none() {
                let w = self.ar.w(a);
                let s = self.ar.konst(w, k.trailing_zeros() as u128);
                return self.ar.bin(Op::Shl, a, s);
            }
        }
        self.ar.bin(Op::Mul, a, b)
    }

    fn binop(&mut self, st: &mut State, op: Bop, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Val::A(xs), Val::A(ys)) = (x, y) {
            let et = ty.elem(0);
            let mut r = Vec::new();
            for i in 0..xs.len() {
                r.push(self.binop(st, op, &et, &xs[i], &ys[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        if let (Val::U(w), Val::U(_)) = (x, y) {
            return Ok(Val::U(*w));
        }
        let (a, b) = (self.scalar(x)?, self.scalar(y)?);
        let ar = &mut self.ar;
        Ok(Val::S(match op {
            Bop::Add => ar.bin(Op::Add, a, b),
            Bop::Sub => ar.sub(a, b),
            Bop::Mul => self.mulc(a, b),
            Bop::And => ar.bin(Op::And, a, b),
            Bop::Or => ar.bin(Op::Or, a, b),
            Bop::Xor => ar.bin(Op::Xor, a, b),
            Bop::Shl => ar.bin(Op::Shl, a, b),
            Bop::LShr => ar.bin(Op::LShr, a, b),
            Bop::AShr => ar.bin(Op::AShr, a, b),
            Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem => {
                let w = ar.w(a);
                let z = ar.konst(w, 0);
                let isz = ar.bin(Op::Eq, b, z);
                if self.decide(st, isz)? {
                    return viol("ub", "division by zero");
                }
                let o = match op {
                    Bop::UDiv => Op::UDiv,
                    Bop::URem => Op::URem,
                    Bop::SDiv => Op::SDiv,
                    _ => Op::SRem,
                };
                self.ar.bin(o, a, b)
            }
        }))
    }

    fn icmp(&mut self, p: &str, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Val::A(xs), Val::A(ys)) = (x, y) {
            let et = ty.elem(0);
            let mut r = Vec::new();
            for i in 0..xs.len() {
                r.push(self.icmp(p, &et, &xs[i], &ys[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let (a, b) = (self.scalar(x)?, self.scalar(y)?);
        let ar = &mut self.ar;
        Ok(Val::S(match p {
            "eq" => ar.bin(Op::Eq, a, b),
            "ne" => {
                let e = ar.bin(Op::Eq, a, b);
                ar.not(e)
            }
            "ult" => ar.bin(Op::Ult, a, b),
            "ule" => ar.bin(Op::Ule, a, b),
            "ugt" => ar.bin(Op::Ult, b, a),
            "uge" => ar.bin(Op::Ule, b, a),
            "slt" => ar.bin(Op::Slt, a, b),
            "sle" => ar.bin(Op::Sle, a, b),
            "sgt" => ar.bin(Op::Slt, b, a),
            "sge" => ar.bin(Op::Sle, b, a),
            _ => return inc(format!("icmp {}", p)),
        }))
    }

    fn cast(&mut self, c: Cop, from: &Ty, x: &Val, to: &Ty) -> R<Val> {
        if c == Cop::BitCast {
            return Ok(match (from.is_agg(), to.is_agg()) {
                (false, false) => x.clone(),
                (true, false) => self.vec_to_int(from, x),
                (false, true) => self.int_to_vec(to, x.clone()),
                (true, true) => {
                    let i = self.vec_to_int(from, x);
                    self.int_to_vec(to, i)
                }
            });
        }
        if let Val::A(xs) = x {
            let (ft, tt) = (from.elem(0), to.elem(0));
            let mut r = Vec::new();
            for v in xs.iter() {
                r.push(self.cast(c, &ft, v, &tt)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let w = to.bits() as u32;
        if let Val::U(_) = x {
            if c == Cop::Trunc || c == Cop::PtrToInt || c == Cop::IntToPtr {
                return Ok(Val::U(w));
            }
        }
        let a = self.scalar(x)?;
        let fw = self.ar.w(a);
        Ok(Val::S(match c {
            Cop::Trunc => self.ar.extract(a, 0, w),
            Cop::ZExt => self.ar.zext(a, w),
            Cop::SExt => self.ar.sext(a, w),
            _ => {
                if fw > w {
                    self.ar.extract(a, 0, w)
                } else {
                    self.ar.zext(a, w)
                }
            }
        }))
    }

    // ---------------------------------------------------------------- calls

    fn builtin(&self, n: &str) -> Option<B> {
        if let Some(r) = n.strip_prefix("llvm.") {
            let starts = |p: &str| r == p || r.starts_with(&format!("{}.", p));
            let nop = [
                "lifetime",
                "experimental.noalias",
                "dbg",
                "invariant",
                "donothing",
                "sideeffect",
                "x86.sse2.pause",
                "prefetch",
                "va_start",
                "va_end",
                "fake.use",
            ];
            if nop.iter().any(|p| starts(p)) {
                return Some(B::Nop);
            }
            if starts("assume") {
                return Some(B::Assume);
            }
            if starts("memcpy") || starts("memmove") {
                return Some(B::Memcpy);
            }
            if starts("memset") {
                return Some(B::Memset);
            }
            if starts("trap") || starts("ubsantrap") {
                return Some(B::Abort);
            }
            if starts("is.constant") {
                return Some(B::IsConstant);
            }
            if starts("threadlocal.address")
                || starts("expect")
                || starts("launder.invariant.group")
                || starts("ptr.annotation")
                || starts("ssa.copy")
            {
                return Some(B::Identity);
            }
            for k in [
                "umax",
                "umin",
                "smax",
                "smin",
                "uadd.with.overflow",
                "usub.with.overflow",
                "umul.with.overflow",
                "sadd.with.overflow",
                "ssub.with.overflow",
                "smul.with.overflow",
                "uadd.sat",
                "usub.sat",
                "sadd.sat",
                "ssub.sat",
                "ucmp",
                "scmp",
            ] {
                if starts(k) {
                    return Some(B::Bin2(k));
                }
            }
            for k in ["cttz", "ctlz", "ctpop", "bswap", "bitreverse", "abs"] {
                if starts(k) {
                    return Some(B::Unary(k));
                }
            }
            if starts("fshl") {
                return Some(B::Fsh(true));
            }
            if starts("fshr") {
                return Some(B::Fsh(false));
            }
            return None;
        }
        Some(match n {
            "sym_bytes" => B::SymBytes,
            "sym_assume" => B::SymAssume,
            "sym_fail" => B::SymFail,
            "sym_cover" => B::SymCover,
            "sym_concretize" => B::SymConcretize,
            "sym_trace" => B::SymTrace,
            "sym_out" => B::SymOut,
            "sym_limit" => B::SymLimit,
            "sym_fail_alloc" => B::SymFailAlloc,
            "sym_live" => B::SymLive,
            "sym_done" => B::SymDone,
            "malloc" => B::Malloc,
            "calloc" => B::Calloc,
            "free" => B::Free,
            "realloc" => B::Realloc,
            "posix_memalign" => B::PosixMemalign,
            "bcmp" => B::Bcmp,
            "memcmp" => B::Memcmp,
            "strlen" => B::Strlen,
            "memcpy" | "memmove" => B::Memcpy,
            "getenv" => B::Getenv,
            "abort" => B::Abort,
            "pthread_self" | "sched_yield" | "__cxa_thread_atexit_impl" => B::Zero,
            _ => {
                if n.ends_with("___rust_alloc") {
                    B::RustAlloc
                } else if n.ends_with("___rust_alloc_zeroed") {
                    B::RustAllocZeroed
                } else if n.ends_with("___rust_dealloc") {
                    B::RustDealloc
                } else if n.ends_with("___rust_realloc") {
                    B::RustRealloc
                } else if n.contains("___rust_no_alloc_shim_is_unstable") {
                    B::Nop
                } else if n.contains("hashmap_random_keys") {
                    B::RandomKeys
                } else if n.contains("4core9panicking") {
                    if n.contains("nounwind") || n.contains("misaligned") || n.contains("null_pointer") {
                        B::PanicNounwind
                    } else if n.contains("9panicking5panic")
                        || n.contains("9panicking9panic_fmt")
                        || n.contains("9panicking1")
                        || n.contains("9panicking2")
                        || n.contains("9panicking3")
                    {
                        // Wrappers such as panic_bounds_check end in panic_fmt; stop right here.
                        B::Panic
                    } else {
                        return None;
                    }
                } else if n.contains("3std9panicking11begin_panic") || n.contains("2rt11begin_panic") {
                    B::Panic
                } else if n.contains("18handle_alloc_error") {
                    B::AllocError
                } else {
                    return None;
                }
            }
        })
    }

    fn target(&mut self, name: &str) -> Target {
        if let Some(b) = self.builtin(name) {
            return Target::Builtin(b);
        }
        if self.m.has(name) {
            return match self.m.func(name) {
                Ok(f) => Target::Fun(f),
                Err(e) => Target::Missing(e),
            };
        }
        Target::Missing(format!("external function {}", name))
    }

    fn call(&mut self, st: &mut State, c: &Rc<CallI>, dst: Option<u32>) -> R<()> {
        let key = Rc::as_ptr(c);
        let t = match &c.callee {
            Callee::Direct(n) => match self.targets.get(&key) {
                Some(t) => t.clone(),
                None => {
                    let t = self.target(n);
                    self.targets.insert(key, t.clone());
                    t
                }
            },
            Callee::Indirect(o) => {
                let p = self.ev(st, o)?;
                let a = self.concretize(st, p)? as u64;
                match self.faddr.get(&a).cloned() {
                    Some(n) => self.target(&n),
                    None => return viol("memory", format!("call through invalid pointer {:#x}", a)),
                }
            }
            Callee::Asm(s) => {
                // Optimisation barriers (`black_box`) are empty templates.
                if s.starts_with('|') {
                    Target::Builtin(B::Nop)
                } else {
                    return inc(format!("inline assembly {}", s));
                }
            }
        };
        let mut args = Vec::with_capacity(c.args.len());
        for (_, o) in &c.args {
            args.push(self.opd(st, o)?);
        }
        match t {
            Target::Missing(m) => inc(m),
            Target::Fun(f) => {
                if st.frames.len() > 400 {
                    return inc("call depth limit");
                }
                self.fns_note(&f);
                let mut regs = vec![Val::U(1); f.nregs as usize];
                for (i, (_, r)) in f.params.iter().enumerate() {
                    if i < args.len() {
                        regs[*r as usize] = args[i].clone();
                    }
                }
                Self::top(st).ip += 1;
                st.frames.push(Rc::new(Frame {
                    f,
                    regs,
                    block: 0,
                    prev: 0,
                    ip: 0,
                    dst,
                    normal: c.normal,
                    allocas: vec![],
                }));
                Ok(())
            }
            Target::Builtin(b) => {
                let v = self.run_builtin(st, b, c, &args)?;
                let fr = Self::top(st);
                if let Some(d) = dst {
                    fr.regs[d as usize] = v;
                }
                fr.ip += 1;
                if let Some(n) = c.normal {
                    self.jump(st, n)?;
                }
                Ok(())
            }
        }
    }

    fn fns_note(&mut self, f: &Rc<Func>) {
        if f.demangled.contains("bsn1") && !self.fns.contains(&f.demangled) {
            self.fns.insert(f.demangled.clone());
        }
    }

    fn panic_text(&mut self, st: &mut State, args: &[Val]) -> String {
        let mut out = String::new();
        let consts: Vec<Option<u64>> = args
            .iter()
            .map(|v| match v {
                Val::S(e) => self.ar.val(*e).map(|x| x as u64),
                _ => None,
            })
            .collect();
        let pb = ptr_bits();
        // Message given as (pointer, length * 2 + 1) or (pointer, length).
        if let (Some(Some(p)), Some(Some(n))) = (consts.get(0), consts.get(1)) {
            let len = if n & 1 == 1 { n >> 1 } else { *n };
            if self.find(st, *p).is_some() && len < 400 {
                let pe = self.ar.konst(pb, *p as u128);
                if let Ok(s) = self.string_at(st, pe, len) {
                    out = s;
                }
            }
        }
        if let Some(Some(p)) = consts.last() {
            if self.find(st, *p).is_some() {
                let w = ptr_bytes();
                let pe = self.ar.konst(pb, *p as u128);
                let le = self.ar.konst(pb, (*p + w) as u128);
                let ne = self.ar.konst(pb, (*p + 2 * w) as u128);
                let uw = Ty::Int(pb);
                if let (Ok(Val::S(f)), Ok(Val::S(l)), Ok(Val::S(n))) = (
                    self.load(st, pe, &Ty::Ptr),
                    self.load(st, le, &uw),
                    self.load(st, ne, &Ty::Int(32)),
                ) {
                    if let (Some(l), Some(n)) = (self.ar.val(l), self.ar.val(n)) {
                        if l < 300 {
                            if let Ok(s) = self.string_at(st, f, l as u64) {
                                out = format!("{} at {}:{}", out, s, n);
                            }
                        }
                    }
                }
            }
        }
        out
    }

    fn cmp_bytes(&mut self, x: &[E], y: &[E], order: bool) -> E {
        if !order {
            let mut c = self.bool_t;
            for i in 0..x.len() {
                let e = self.ar.bin(Op::Eq, x[i], y[i]);
                c = self.ar.bin(Op::And, c, e);
            }
            let z = self.ar.konst(32, 0);
            let o = self.ar.konst(32, 1);
            return self.ar.ite(c, z, o);
        }
        let mut r = self.ar.konst(32, 0);
        let lt = self.ar.konst(32, u32::MAX as u128);
        let gt = self.ar.konst(32, 1);
        for i in (0..x.len()).rev() {
            let l = self.ar.bin(Op::Ult, x[i], y[i]);
            let e = self.ar.bin(Op::Eq, x[i], y[i]);
            let d = self.ar.ite(l, lt, gt);
            r = self.ar.ite(e, r, d);
        }
        r
    }

    fn run_builtin(&mut self, st: &mut State, b: B, c: &Rc<CallI>, args: &[Val]) -> R<Val> {
        let pb = ptr_bits();
        macro_rules! a {
            ($i:expr) => {
                match args.get($i) { Some(v) => self.scalar(v)?, None => return inc(format!("missing argument in call {:?}", c.callee)) }
            };
        }
        Ok(match b {
            B::Nop => match c.ret {
                Ty::Void => Val::U(1),
                _ => self.undef(&c.ret),
            },
            B::Zero => self.zero(&c.ret),
            B::Identity => args[0].clone(),
            B::IsConstant => Val::S(self.ar.fls()),
            B::Assume => {
                if let Val::S(e) = args[0] {
                    if !self.decide(st, e)? {
                        return viol("ub", "compiler assumption violated (undefined behaviour)");
                    }
                }
                Val::U(1)
            }
            B::Memcpy => {
                let n = a!(2);
                let n = self.concretize(st, n)? as u64;
                let (d, s) = (a!(0), a!(1));
                let data = self.bytes_at(st, s, n)?;
                self.write_bytes(st, d, &data)?;
                args[0].clone()
            }
            B::Memset => {
                let n = a!(2);
                let n = self.concretize(st, n)? as u64;
                let d = a!(0);
                let fill = match args[1] {
                    Val::S(e) => e,
                    _ => 0,
                };
                self.write_bytes(st, d, &vec![fill; n as usize])?;
                Val::U(1)
            }
            B::RustAlloc | B::RustAllocZeroed | B::Malloc | B::Calloc => {
                let (mut size, al) = match b {
                    B::RustAlloc | B::RustAllocZeroed => (a!(0), a!(1)),
                    _ => (a!(0), self.ar.konst(pb, 16)),
                };
                if b == B::Calloc {
                    let m = a!(1);
                    size = self.ar.bin(Op::Mul, size, m);
                }
                let al = self.concretize(st, al)? as u64;
                let n = self.alloc_size(st, size)?;
                if Self::refuse(st) {
                    return Ok(Val::S(self.ar.konst(pb, 0)));
                }
                let fill = if b == B::RustAllocZeroed || b == B::Calloc {
                    self.ar.konst(8, 0)
                } else {
                    0
                };
                let p = self.alloc(st, n, al, Kind::Heap, fill);
                st.live_heap += n;
                Val::S(self.ar.konst(pb, p as u128))
            }
            B::PosixMemalign => {
                let (out, al, n) = (a!(0), a!(1), a!(2));
                let al = self.concretize(st, al)? as u64;
                let n = self.alloc_size(st, n)?;
                let p = self.alloc(st, n, al, Kind::Heap, 0);
                st.live_heap += n;
                let v = Val::S(self.ar.konst(pb, p as u128));
                self.store(st, out, &Ty::Ptr, &v)?;
                Val::S(self.ar.konst(32, 0))
            }
            B::RustDealloc => {
                let (p, s, al) = (a!(0), a!(1), a!(2));
                let s = self.concretize(st, s)? as u64;
                let al = self.concretize(st, al)? as u64;
                self.free(st, p, Some((s, al)))?;
                Val::U(1)
            }
            B::Free => {
                let p = a!(0);
                if self.ar.val(p) != Some(0) {
                    self.free(st, p, None)?;
                }
                Val::U(1)
            }
            B::RustRealloc | B::Realloc => {
                let p = a!(0);
                let p0 = self.concretize(st, p)? as u64;
                let (layout, n, al) = if b == B::RustRealloc {
                    let (s, al, n) = (a!(1), a!(2), a!(3));
                    let s = self.concretize(st, s)? as u64;
                    let al = self.concretize(st, al)? as u64;
                    (Some((s, al)), self.alloc_size(st, n)?, al)
                } else {
                    let n = a!(1);
                    (None, self.alloc_size(st, n)?, 16)
                };
                let old = match st.objs.get(&p0) {
                    Some(o) if o.kind == Kind::Heap => o.clone(),
                    _ => return viol("memory", "reallocation of a pointer that is not a live heap block"),
                };
                if Self::refuse(st) {
                    return Ok(Val::S(self.ar.konst(pb, 0)));
                }
                self.free(st, p, layout)?;
                let q = self.alloc(st, n, al, Kind::Heap, 0);
                st.live_heap += n;
                let k = (old.size.min(n)) as usize;
                self.obj_mut(st, q).bytes[..k].copy_from_slice(&old.bytes[..k]);
                Val::S(self.ar.konst(pb, q as u128))
            }
            B::Bcmp | B::Memcmp => {
                let n = a!(2);
                let n = self.concretize(st, n)? as u64;
                let (p, q) = (a!(0), a!(1));
                let x = self.defined_bytes_at(st, p, n)?;
                let y = self.defined_bytes_at(st, q, n)?;
                Val::S(self.cmp_bytes(&x, &y, b == B::Memcmp))
            }
            B::Strlen => {
                let p = a!(0);
                let p = self.concretize(st, p)? as u64;
                let mut n = 0;
                loop {
                    let q = self.ar.konst(pb, (p + n) as u128);
                    let v = self.load(st, q, &Ty::Int(8))?;
                    let v = self.scalar(&v)?;
                    match self.ar.val(v) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => return inc("strlen of symbolic data"),
                    }
                }
                Val::S(self.ar.konst(pb, n as u128))
            }
            B::Getenv => Val::S(self.ar.konst(pb, 0)),
            B::RandomKeys => {
                let x = self.ar.konst(64, 0x0123_4567_89ab_cdef);
                let y = self.ar.konst(64, 0xfedc_ba98_7654_3210);
                Val::A(Rc::new(vec![Val::S(x), Val::S(y)]))
            }
            B::Panic => {
                let t = self.panic_text(st, args);
                return viol("panic", t);
            }
            B::PanicNounwind => {
                let t = self.panic_text(st, args);
                return viol("ub", t);
            }
            B::AllocError if st.failed => return Err(Stop::OutOfMemory),
            B::AllocError => return viol("alloc", "allocation failure"),
            B::Abort => return viol("panic", "abort"),
            B::Fsh(left) => {
                let (x, y, s) = (a!(0), a!(1), a!(2));
                let w = self.ar.w(x);
                let m = self.ar.konst(w, w as u128);
                let s = self.ar.bin(Op::URem, s, m);
                let z = self.ar.konst(w, 0);
                let inv = self.ar.sub(m, s);
                // A shift by the full width yields zero in the expression language.
                let r = if left {
                    let p = self.ar.bin(Op::Shl, x, s);
                    let q = self.ar.bin(Op::LShr, y, inv);
                    self.ar.bin(Op::Or, p, q)
                } else {
                    let p = self.ar.bin(Op::Shl, x, inv);
                    let q = self.ar.bin(Op::LShr, y, s);
                    self.ar.bin(Op::Or, p, q)
                };
                let _ = z;
                Val::S(r)
            }
            B::Unary(k) => {
                if let (Val::A(xs), true) = (&args[0], c.ret.is_agg()) {
                    let mut r = Vec::new();
                    for x in xs.iter() {
                        let e = self.scalar(x)?;
                        r.push(Val::S(self.unary(k, e)?));
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                let x = a!(0);
                let x = self.simp(st, x);
                Val::S(self.unary(k, x)?)
            }
            B::Bin2(k) => {
                if let (Val::A(xs), Val::A(ys)) = (&args[0], &args[1]) {
                    let mut r = Vec::new();
                    for i in 0..xs.len() {
                        let (p, q) = (self.scalar(&xs[i])?, self.scalar(&ys[i])?);
                        r.push(self.bin2(k, p, q, &c.ret)?);
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                let (x, y) = (a!(0), a!(1));
                self.bin2(k, x, y, &c.ret)?
            }
            B::SymBytes => {
                let (p, n) = (a!(0), a!(1));
                let n = self.concretize(st, n)? as u64;
                let mut ids = Vec::new();
                let mut data = Vec::new();
                let call = st.inputs.len();
                for i in 0..n {
                    let s = self.ar.sym(8, format!("in{}[{}]", call, i));
                    ids.push(self.ar.n(s).a);
                    data.push(s);
                }
                self.write_bytes(st, p, &data)?;
                Rc::make_mut(&mut st.inputs).push(ids);
                Val::U(1)
            }
            B::SymAssume => {
                let x = a!(0);
                let w = self.ar.w(x);
                let z = self.ar.konst(w, 0);
                let e = self.ar.bin(Op::Eq, x, z);
                let e = self.ar.not(e);
                self.assume(st, e)?;
                Val::U(1)
            }
            B::SymFail => {
                let (p, n) = (a!(0), a!(1));
                let n = self.concretize(st, n)? as u64;
                let s = self.string_at(st, p, n)?;
                return viol("assert", s);
            }
            B::SymCover | B::SymTrace => {
                let (p, n) = (a!(0), a!(1));
                let n = self.concretize(st, n)? as u64;
                let s = self.string_at(st, p, n)?;
                if b == B::SymCover {
                    Rc::make_mut(&mut st.covers).insert(s);
                } else {
                    Rc::make_mut(&mut st.trace).push(s);
                }
                Val::U(1)
            }
            B::SymConcretize => {
                let x = a!(0);
                let w = self.ar.w(x);
                let v = self.concretize(st, x)?;
                Val::S(self.ar.konst(w, v))
            }
            B::SymOut => {
                let (p, n) = (a!(0), a!(1));
                let n = self.concretize(st, n)? as u64;
                let b = self.defined_bytes_at(st, p, n)?;
                Rc::make_mut(&mut st.outs).push(b);
                Val::U(1)
            }
            B::SymLimit => {
                let n = a!(0);
                st.alloc_limit = self.concretize(st, n)? as u64;
                Val::U(1)
            }
            B::SymFailAlloc => {
                let n = a!(0);
                st.fail_after = self.concretize(st, n)? as u64;
                Val::U(1)
            }
            B::SymLive => {
                let n = st.objs.values().filter(|o| o.kind == Kind::Heap).count();
                Val::S(self.ar.konst(64, n as u128))
            }
            B::SymDone => return Err(Stop::Done),
        })
    }

    fn unary(&mut self, k: &str, x: E) -> R<E> {
        let w = self.ar.w(x);
        Ok(match k {
            "bswap" => {
                let n = w / 8;
                let mut e = 0;
                for i in 0..n {
                    let b = self.ar.extract(x, i * 8, 8);
                    e = if e == 0 { b } else { self.ar.concat(e, b) };
                }
                e
            }
            "bitreverse" => {
                let mut e = 0;
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    e = if e == 0 { b } else { self.ar.concat(e, b) };
                }
                e
            }
            "ctpop" => {
                let mut e = self.ar.konst(w, 0);
                for i in 0..w {
                    let b = self.ar.extract(x, i, 1);
                    let b = self.ar.zext(b, w);
                    e = self.ar.bin(Op::Add, e, b);
                }
                e
            }
            "cttz" | "ctlz" => {
                let mut e = self.ar.konst(w, w as u128);
                for j in 0..w {
                    let i = if k == "cttz" { w - 1 - j } else { j };
                    let b = self.ar.extract(x, i, 1);
                    let pos = if k == "cttz" { i } else { w - 1 - i };
                    let v = self.ar.konst(w, pos as u128);
                    e = self.ar.ite(b, v, e);
                }
                e
            }
            "abs" => {
                let s = self.ar.extract(x, w - 1, 1);
                let n = self.ar.neg(x);
                self.ar.ite(s, n, x)
            }
            _ => return inc(format!("intrinsic {}", k)),
        })
    }

    fn bin2(&mut self, k: &str, x: E, y: E, ret: &Ty) -> R<Val> {
        let ar = &mut self.ar;
        let w = ar.w(x);
        let pair = |a: E, b: E| Val::A(Rc::new(vec![Val::S(a), Val::S(b)]));
        Ok(match k {
            "umax" | "umin" | "smax" | "smin" => {
                let op = if k.starts_with('u') { Op::Ult } else { Op::Slt };
                let lt = ar.bin(op, x, y);
                let r = if k.ends_with("min") { ar.ite(lt, x, y) } else { ar.ite(lt, y, x) };
                Val::S(r)
            }
            "uadd.with.overflow" => {
                let s = ar.bin(Op::Add, x, y);
                // Overflow iff the sum is smaller than an operand; with a constant, compare once.
                let o = match ar.val(y) {
                    Some(ky) => {
                        let lim = ar.konst(w, mask(w) - ky);
                        ar.bin(Op::Ult, lim, x)
                    }
                    None => ar.bin(Op::Ult, s, x),
                };
                pair(s, o)
            }
            "usub.with.overflow" => {
                let s = ar.sub(x, y);
                let o = ar.bin(Op::Ult, x, y);
                pair(s, o)
            }
            "umul.with.overflow" => {
                let o = ar.bin(Op::UMulOvf, x, y);
                let s = self.mulc(x, y);
                pair(s, o)
            }
            "smul.with.overflow" => {
                let o = ar.bin(Op::SMulOvf, x, y);
                let s = ar.bin(Op::Mul, x, y);
                pair(s, o)
            }
            "sadd.with.overflow" | "ssub.with.overflow" => {
                let s = if k.starts_with("sadd") { ar.bin(Op::Add, x, y) } else { ar.sub(x, y) };
                let sx = ar.extract(x, w - 1, 1);
                let sy = ar.extract(y, w - 1, 1);
                let ss = ar.extract(s, w - 1, 1);
                let d1 = ar.bin(Op::Xor, sx, ss);
                let d2 = if k.starts_with("sadd") {
                    ar.bin(Op::Xor, sy, ss)
                } else {
                    ar.bin(Op::Xor, sx, sy)
                };
                let o = ar.bin(Op::And, d1, d2);
                pair(s, o)
            }
            "uadd.sat" => {
                let s = ar.bin(Op::Add, x, y);
                let o = ar.bin(Op::Ult, s, x);
                let m = ar.konst(w, mask(w));
                Val::S(ar.ite(o, m, s))
            }
            "usub.sat" => {
                let s = ar.sub(x, y);
                let o = ar.bin(Op::Ult, x, y);
                let z = ar.konst(w, 0);
                Val::S(ar.ite(o, z, s))
            }
            "ucmp" | "scmp" => {
                let rw = if ret.is_agg() { ret.elem(0).bits() } else { ret.bits() } as u32;
                let op = if k == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = ar.bin(op, x, y);
                let gt = ar.bin(op, y, x);
                let m = ar.konst(rw, mask(rw));
                let z = ar.konst(rw, 0);
                let o = ar.konst(rw, 1);
                let t = ar.ite(gt, o, z);
                Val::S(ar.ite(lt, m, t))
            }
            _ => return inc(format!("intrinsic {}", k)),
        })
    }
}
