//! Hash-consed bit-vector expressions (width 1..=128) with constant folding.
//!
//! Every node is interned once, so equality of expressions is equality of indices.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Sym,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract,
    Concat,
    UMulOvf,
    SMulOvf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    index: HashMap<Node, E, BuildFx>,
    pub sym_names: Vec<String>,
    pub sym_width: Vec<u8>,
    supp: Vec<Option<Rc<[u32]>>>,
    eval_stamp: Vec<u64>,
    eval_val: Vec<u128>,
    /// Number of leaves if the node is a constant or an `Ite` tree over constants, else 0.
    leaves: Vec<u8>,
    pub stamp: u64,
}

#[derive(Clone, Default)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let sh = 128 - w;
        ((v << sh) as i128) >> sh
    }
}

/// Folds an operator over constant operands. `w` is the operand width.
fn fold(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                (if a < 0 { 1 } else { m }) & m
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let sh = if y >= w as u128 { w - 1 } else { y as u32 };
            ((sext(x, w) >> sh) as u128) & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        Op::UMulOvf => {
            let (r, o) = x.overflowing_mul(y);
            (o || r > m) as u128
        }
        Op::SMulOvf => {
            let (a, b) = (sext(x, w), sext(y, w));
            let (r, o) = a.overflowing_mul(b);
            (o || sext((r as u128) & m, w) != r) as u128
        }
        _ => return None,
    })
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: Vec::new(),
            index: HashMap::default(),
            sym_names: Vec::new(),
            sym_width: Vec::new(),
            supp: Vec::new(),
            eval_stamp: Vec::new(),
            eval_val: Vec::new(),
            leaves: Vec::new(),
            stamp: 1,
        };
        // Index 0 is reserved: it marks an uninitialised memory byte and is never a value.
        a.nodes.push(Node {
            op: Op::Const,
            w: 255,
            a: 0,
            b: 0,
            c: 0,
            k: 0,
        });
        a.supp.push(Some(Rc::from(vec![])));
        a.eval_stamp.push(0);
        a.eval_val.push(0);
        a.leaves.push(0);
        a
    }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.index.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.supp.push(None);
        self.eval_stamp.push(0);
        self.eval_val.push(0);
        let lv = match n.op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.leaves[n.b as usize] as u32, self.leaves[n.c as usize] as u32);
                if x == 0 || y == 0 || x + y > 200 {
                    0
                } else {
                    (x + y) as u8
                }
            }
            _ => 0,
        };
        self.leaves.push(lv);
        self.index.insert(n, e);
        e
    }

    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }

    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }

    pub fn konst(&mut self, w: u32, k: u128) -> E {
        debug_assert!(w >= 1 && w <= 128);
        self.intern(Node {
            op: Op::Const,
            w: w as u8,
            a: 0,
            b: 0,
            c: 0,
            k: k & mask(w),
        })
    }

    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }

    pub fn fls(&mut self) -> E {
        self.konst(1, 0)
    }

    pub fn val(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn sym(&mut self, w: u32, name: String) -> E {
        let id = self.sym_names.len() as u32;
        self.sym_names.push(name);
        self.sym_width.push(w as u8);
        self.intern(Node {
            op: Op::Sym,
            w: w as u8,
            a: id,
            b: 0,
            c: 0,
            k: 0,
        })
    }

    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node {
            op,
            w: w as u8,
            a,
            b,
            c,
            k,
        })
    }

    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let ones = self.konst(w, mask(w));
        let one = self.konst(w, 1);
        let n = self.bin(Op::Xor, a, ones);
        self.bin(Op::Add, n, one)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let ones = self.konst(w, mask(w));
        self.bin(Op::Xor, a, ones)
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        if a == b {
            let w = self.w(a);
            return self.konst(w, 0);
        }
        if let Some(k) = self.val(b) {
            let w = self.w(a);
            let nk = self.konst(w, k.wrapping_neg());
            return self.bin(Op::Add, a, nk);
        }
        let nb = self.neg(b);
        self.bin(Op::Add, a, nb)
    }

    /// Upper bound of the unsigned value of `e` derivable from its structure.
    pub fn umax(&self, e: E) -> u128 {
        let n = self.n(e);
        let w = n.w as u32;
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax(n.a),
            Op::And => self.umax(n.a).min(self.umax(n.b)),
            Op::LShr => match self.val(n.b) {
                Some(k) if k < w as u128 => self.umax(n.a) >> k,
                _ => mask(w),
            },
            Op::Ite => {
                let nb = self.n(n.b);
                let nc = self.n(n.c);
                let small = self.leaves[e as usize] > 0 && self.leaves[e as usize] < 64;
                let mb = if nb.op == Op::Ite && !small { mask(w) } else { self.umax(n.b) };
                let mc = if nc.op == Op::Ite && !small { mask(w) } else { self.umax(n.c) };
                mb.max(mc)
            }
            Op::Concat => {
                let hi = self.n(n.a);
                if hi.op == Op::Const && hi.k == 0 {
                    self.umax(n.b)
                } else {
                    mask(w)
                }
            }
            _ => mask(w),
        }
    }

    fn is_bool_op(op: Op) -> bool {
        matches!(
            op,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulOvf | Op::SMulOvf
        )
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        let rw = if Self::is_bool_op(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.val(a), self.val(b)) {
            if let Some(r) = fold(op, w, x, y) {
                return self.konst(rw, r);
            }
        }
        // Constants go right for commutative operators.
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if self.val(a).is_some() || (self.val(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.val(b);
        let na = self.n(a);
        if w > 1 {
            // Operators distribute over case trees with constant leaves.
            if kb.is_some() && self.leaves[a as usize] > 1 {
                let p = self.bin(op, na.b, b);
                let q = self.bin(op, na.c, b);
                return self.ite(na.a, p, q);
            }
            if self.leaves[b as usize] > 1 && self.leaves[a as usize] == 1 {
                let nb = self.n(b);
                let p = self.bin(op, a, nb.b);
                let q = self.bin(op, a, nb.c);
                return self.ite(nb.a, p, q);
            }
        }
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.val(na.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.val(na.b), self.val(na.c)) {
                            let p = self.konst(w, x.wrapping_add(k));
                            let q = self.konst(w, y.wrapping_add(k));
                            return self.ite(na.a, p, q);
                        }
                    }
                } else if w > 1 {
                    let nb = self.n(b);
                    if self.is_linear(&na) || self.is_linear(&nb) {
                        return self.linear_sum(a, b);
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::And, a, b);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(mask(w)) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::And {
                        if let Some(k2) = self.val(na.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.val(na.b), self.val(na.c)) {
                            let p = self.konst(w, x & k);
                            let q = self.konst(w, y & k);
                            return self.ite(na.a, p, q);
                        }
                    }
                    // Low mask: becomes a zero extension of an extract.
                    let t = (k + 1).trailing_zeros();
                    if k != 0 && (k & (k + 1)) == 0 && t < w {
                        let x = self.extract(a, 0, t);
                        return self.zext(x, w);
                    }
                    // (x | c) & k, (zext/concat pieces) handled bytewise for wide words.
                    if na.op == Op::Or {
                        if let Some(k2) = self.val(na.b) {
                            let l = self.bin(Op::And, na.a, b);
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::Or, l, kk);
                        }
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let hk = self.konst(w - lw, k >> lw);
                        let lk = self.konst(lw, k);
                        let h = self.bin(Op::And, na.a, hk);
                        let l = self.bin(Op::And, na.b, lk);
                        return self.concat(h, l);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let ik = self.konst(iw, k);
                        let x = self.bin(Op::And, na.a, ik);
                        return self.zext(x, w);
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.fls();
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(mask(w)) {
                    return b;
                }
                if let Some(k) = kb {
                    if na.op == Op::Or {
                        if let Some(k2) = self.val(na.b) {
                            let kk = self.konst(w, k | k2);
                            return self.bin(Op::Or, na.a, kk);
                        }
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let hk = self.konst(w - lw, k >> lw);
                        let lk = self.konst(lw, k);
                        let h = self.bin(Op::Or, na.a, hk);
                        let l = self.bin(Op::Or, na.b, lk);
                        return self.concat(h, l);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let hk = self.konst(w - iw, k >> iw);
                        let lk = self.konst(iw, k);
                        let l = self.bin(Op::Or, na.a, lk);
                        return self.concat(hk, l);
                    }
                } else if w > 1 {
                    if let Some(r) = self.or_pieces(a, b) {
                        return r;
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.tru();
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.val(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if w > 1 && k == mask(w) && (na.op == Op::Add || (na.op == Op::Mul && self.val(na.b).is_some())) {
                        // !t = -t - 1 keeps sums in canonical form
                        let m1 = self.konst(w, mask(w));
                        let t = self.mk(Op::Mul, w, a, m1, 0, 0);
                        return self.linear_sum(t, m1);
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let hk = self.konst(w - lw, k >> lw);
                        let lk = self.konst(lw, k);
                        let h = self.bin(Op::Xor, na.a, hk);
                        let l = self.bin(Op::Xor, na.b, lk);
                        return self.concat(h, l);
                    }
                    if na.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.val(na.b), self.val(na.c)) {
                            let p = self.konst(w, x ^ k);
                            let q = self.konst(w, y ^ k);
                            return self.ite(na.a, p, q);
                        }
                    }
                    if w == 1 {
                        // not of comparison
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let x = self.extract(a, 0, w - k as u32);
                    let z = self.konst(k as u32, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let t = k.trailing_zeros();
                        if op == Op::UDiv {
                            let kk = self.konst(w, t as u128);
                            return self.bin(Op::LShr, a, kk);
                        } else {
                            let kk = self.konst(w, k - 1);
                            return self.bin(Op::And, a, kk);
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tru();
                }
                if w == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::Add => {
                            if let Some(k2) = self.val(na.b) {
                                let kk = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.val(na.b) {
                                let kk = self.konst(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.fls();
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let kk = self.konst(iw, k);
                            let back = self.sext(kk, w);
                            if self.val(back) != Some(k) {
                                return self.fls();
                            }
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hk = self.konst(w - lw, k >> lw);
                            let lk = self.konst(lw, k);
                            let h = self.bin(Op::Eq, na.a, hk);
                            let l = self.bin(Op::Eq, na.b, lk);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let (vb, vc) = (self.val(na.b), self.val(na.c));
                            if vb.is_some() || vc.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                    if k > self.umax(a) {
                        return self.fls();
                    }
                } else {
                    let nb = self.n(b);
                    if w > 1 && (self.is_linear(&na) || self.is_linear(&nb)) {
                        let d = self.sub(a, b);
                        if let Some(k) = self.val(d) {
                            return if k == 0 { self.tru() } else { self.fls() };
                        }
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.fls();
                }
                if kb == Some(0) {
                    return self.fls();
                }
                if let Some(k) = kb {
                    if self.umax(a) < k {
                        return self.tru();
                    }
                    if k == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if na.op == Op::Ite && self.val(na.b).is_some() && self.val(na.c).is_some() {
                        let p = self.bin(op, na.b, b);
                        let q = self.bin(op, na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                if let Some(k) = self.val(a) {
                    if k == mask(w) {
                        return self.fls();
                    }
                    if self.umax(b) <= k {
                        return self.fls();
                    }
                    let nb = self.n(b);
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                    if nb.op == Op::Ite && self.val(nb.b).is_some() && self.val(nb.c).is_some() {
                        let p = self.bin(op, a, nb.b);
                        let q = self.bin(op, a, nb.c);
                        return self.ite(nb.a, p, q);
                    }
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(Op::And, n, b);
                }
            }
            Op::Ule => {
                if a == b {
                    return self.tru();
                }
                if let Some(k) = kb {
                    if k == mask(w) {
                        return self.tru();
                    }
                    let kk = self.konst(w, k + 1);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = self.val(a) {
                    if k == 0 {
                        return self.tru();
                    }
                    let kk = self.konst(w, k - 1);
                    return self.bin(Op::Ult, kk, b);
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(Op::Or, n, b);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.fls();
                }
                let half = 1u128 << (w - 1);
                if kb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if self.val(a) == Some(mask(w)) {
                    // -1 < b
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if self.umax(a) < half && self.umax(b) < half {
                    return self.bin(Op::Ult, a, b);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.tru();
                }
                let half = 1u128 << (w - 1);
                if self.umax(a) < half && self.umax(b) < half {
                    return self.bin(Op::Ule, a, b);
                }
                let l = self.bin(Op::Slt, b, a);
                return self.not(l);
            }
            Op::UMulOvf => {
                if kb == Some(0) || kb == Some(1) {
                    return self.fls();
                }
                if let Some(k) = self.val(a) {
                    if k <= 1 {
                        return self.fls();
                    }
                    if self.umax(b) <= mask(w) / k {
                        return self.fls();
                    }
                }
                if let Some(k) = kb {
                    if self.umax(a) <= mask(w) / k {
                        return self.fls();
                    }
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }

    fn is_linear(&self, n: &Node) -> bool {
        match n.op {
            Op::Add => true,
            Op::Xor => self.val(n.b) == Some(mask(n.w as u32)),
            Op::Mul => self.val(n.b).is_some(),
            _ => false,
        }
    }

    fn linear_terms(&self, e: E, coef: u128, out: &mut Vec<(E, u128)>, k: &mut u128) {
        let n = self.n(e);
        match n.op {
            Op::Const => *k = k.wrapping_add(coef.wrapping_mul(n.k)),
            Op::Add => {
                self.linear_terms(n.a, coef, out, k);
                self.linear_terms(n.b, coef, out, k);
            }
            // !t = -t - 1
            Op::Xor if self.val(n.b) == Some(mask(n.w as u32)) => {
                self.linear_terms(n.a, coef.wrapping_neg(), out, k);
                *k = k.wrapping_sub(coef);
            }
            Op::Mul if self.val(n.b).is_some() => {
                let c = self.val(n.b).unwrap();
                self.linear_terms(n.a, coef.wrapping_mul(c), out, k);
            }
            _ => match out.iter_mut().find(|t| t.0 == e) {
                Some(t) => t.1 = t.1.wrapping_add(coef),
                None => out.push((e, coef)),
            },
        }
    }

    /// Canonical form of a sum: ordered terms, opposite terms cancelled, constant last.
    fn linear_sum(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let m = mask(w);
        let mut ts = Vec::new();
        let mut k = 0u128;
        self.linear_terms(a, 1, &mut ts, &mut k);
        self.linear_terms(b, 1, &mut ts, &mut k);
        ts.retain(|t| t.1 & m != 0);
        ts.sort();
        let mut r: E = 0;
        for (t, c) in ts {
            let c = c & m;
            let x = if c == 1 {
                t
            } else if c == m {
                k = k.wrapping_add(1);
                let ones = self.konst(w, m);
                self.mk(Op::Xor, w, t, ones, 0, 0)
            } else {
                let kc = self.konst(w, c);
                self.mk(Op::Mul, w, t, kc, 0, 0)
            };
            r = if r == 0 { x } else { self.mk(Op::Add, w, r, x, 0, 0) };
        }
        let k = k & m;
        if r == 0 {
            return self.konst(w, k);
        }
        if k == 0 {
            return r;
        }
        let kk = self.konst(w, k);
        self.mk(Op::Add, w, r, kk, 0, 0)
    }

    fn is_not_of(&self, a: E, b: E) -> bool {
        let f = |x: E, y: E| {
            let n = self.n(x);
            n.op == Op::Xor && n.w == 1 && n.a == y && self.val(n.b) == Some(1)
        };
        f(a, b) || f(b, a)
    }

    /// `a | b` where both are concatenations whose non-zero pieces do not overlap.
    fn or_pieces(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let mut pa = Vec::new();
        let mut pb = Vec::new();
        self.pieces(a, 0, &mut pa, 0);
        self.pieces(b, 0, &mut pb, 0);
        if pa.len() < 2 || pb.len() < 2 || pa.len() > 20 || pb.len() > 20 {
            return None;
        }
        let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).map(|p| p.1).collect();
        cuts.push(w);
        cuts.sort();
        cuts.dedup();
        let mut parts: Vec<E> = Vec::new();
        for i in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[i], cuts[i + 1]);
            let x = self.piece_at(&pa, lo, hi);
            let y = self.piece_at(&pb, lo, hi);
            let (zx, zy) = (self.val(x) == Some(0), self.val(y) == Some(0));
            if zx {
                parts.push(y);
            } else if zy {
                parts.push(x);
            } else {
                return None;
            }
        }
        let mut r = parts[0];
        for &p in &parts[1..] {
            r = self.concat(p, r);
        }
        Some(r)
    }

    fn piece_at(&mut self, ps: &[(E, u32, u32)], lo: u32, hi: u32) -> E {
        for &(e, l, h) in ps {
            if l <= lo && hi <= h {
                return self.extract(e, lo - l, hi - lo);
            }
        }
        unreachable!()
    }

    /// Pieces (expr, lo, hi) of `e`, least significant first or not: order is irrelevant.
    fn pieces(&mut self, e: E, lo: u32, out: &mut Vec<(E, u32, u32)>, depth: u32) {
        let n = self.n(e);
        let w = n.w as u32;
        if depth < 20 {
            match n.op {
                Op::Concat => {
                    let lw = self.w(n.b);
                    self.pieces(n.b, lo, out, depth + 1);
                    self.pieces(n.a, lo + lw, out, depth + 1);
                    return;
                }
                Op::ZExt => {
                    let iw = self.w(n.a);
                    self.pieces(n.a, lo, out, depth + 1);
                    let z = self.konst(w - iw, 0);
                    out.push((z, lo + iw, lo + w));
                    return;
                }
                _ => {}
            }
        }
        out.push((e, lo, lo + w));
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.val(c) {
            Some(1) => return a,
            Some(0) => return b,
            _ => {}
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.val(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.val(a), self.val(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // ite(c, a, ite(d, a, r)) = ite(c | d, a, r); ite(c, ite(d, x, b), b) = ite(c & d, x, b)
        let nb = self.n(b);
        if nb.op == Op::Ite {
            if nb.b == a {
                let d = self.bin(Op::Or, c, nb.a);
                return self.ite(d, a, nb.c);
            }
            if nb.a == c {
                return self.ite(c, a, nb.c);
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite {
            if na.c == b {
                let d = self.bin(Op::And, c, na.a);
                return self.ite(d, na.b, b);
            }
            if na.a == c {
                return self.ite(c, na.b, b);
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(k) = self.val(a) {
            return self.konst(w, k);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if self.leaves[a as usize] > 1 {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }

    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.val(a) {
            return self.konst(w, sext(k, aw) as u128);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if self.leaves[a as usize] > 1 {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if aw == 1 {
            let x = self.konst(w, mask(w));
            let y = self.konst(w, 0);
            return self.ite(a, x, y);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.val(a) {
            return self.konst(w, k >> lo);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    let s = self.extract(n.a, iw - 1, 1);
                    return self.sext(s, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.sext(x, w);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::And | Op::Or | Op::Xor if self.val(n.a).is_some() || self.val(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                let k = self.val(x).or(self.val(y));
                if (self.val(x).is_some() && self.val(y).is_some())
                    || k == Some(0)
                    || (k == Some(mask(w)) && n.op != Op::Xor)
                {
                    return self.bin(n.op, x, y);
                }
            }
            Op::Ite => {
                if self.leaves[a as usize] > 1
                    || ((self.val(n.b).is_some() || self.val(n.c).is_some()) && self.ite_depth(a) < 40)
                {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }

    fn ite_depth(&self, mut e: E) -> u32 {
        let mut d = 0;
        loop {
            let n = self.n(e);
            if n.op != Op::Ite {
                return d;
            }
            d += 1;
            e = if self.n(n.b).op == Op::Ite { n.b } else { n.c };
            if d > 40 {
                return d;
            }
        }
    }

    /// `hi ++ lo`
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        debug_assert!(hw + lw <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.val(hi), self.val(lo)) {
            return self.konst(hw + lw, (x << lw) | y);
        }
        if self.val(hi) == Some(0) {
            return self.zext(lo, hw + lw);
        }
        let nh = self.n(hi);
        let nl = self.n(lo);
        if nh.op == Op::ZExt {
            // concat(zext(x), lo) = zext(concat(x, lo))
            let c = self.concat(nh.a, lo);
            return self.zext(c, hw + lw);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u32, hw + lw);
        }
        // concat(extract(x, lw, ..), x[0..lw] given as whole lower part of concat)
        if nl.op == Op::Concat {
            let nlh = self.n(nl.a);
            if nh.op == Op::Extract
                && nlh.op == Op::Extract
                && nh.a == nlh.a
                && nh.k == nlh.k + nlh.w as u128
            {
                let m = self.extract(nh.a, nlh.k as u32, hw + nlh.w as u32);
                return self.concat(m, nl.b);
            }
            if self.val(hi).is_some() && self.val(nl.a).is_some() {
                let m = self.concat(hi, nl.a);
                return self.concat(m, nl.b);
            }
        }
        self.mk(Op::Concat, hw + lw, hi, lo, 0, 0)
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Sym => format!("{}#{}", self.sym_names[n.a as usize], n.a),
            _ if depth == 0 => "..".into(),
            _ => {
                let k: Vec<String> = self
                    .kids(&n)
                    .iter()
                    .take_while(|x| **x != 0)
                    .map(|x| self.show(*x, depth - 1))
                    .collect();
                let ex = if n.op == Op::Extract { format!(" {}", n.k) } else { String::new() };
                format!("({:?}{}:{} {})", n.op, ex, n.w, k.join(" "))
            }
        }
    }

    /// Sorted list of the symbols `e` mentions.
    pub fn support(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.supp[e as usize] {
            return s.clone();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.supp[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let kids = self.kids(&n);
            let mut ready = true;
            for &k in kids.iter().take_while(|k| **k != 0) {
                if self.supp[k as usize].is_none() {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r: Rc<[u32]> = match n.op {
                Op::Const => Rc::from(vec![]),
                Op::Sym => Rc::from(vec![n.a]),
                _ => {
                    let ks: Vec<E> = kids.iter().copied().take_while(|k| *k != 0).collect();
                    if ks.len() == 1 {
                        self.supp[ks[0] as usize].clone().unwrap()
                    } else {
                        let mut v: Vec<u32> = Vec::new();
                        for k in &ks {
                            v.extend_from_slice(self.supp[*k as usize].as_ref().unwrap());
                        }
                        v.sort_unstable();
                        v.dedup();
                        let mut res = None;
                        for k in &ks {
                            let s = self.supp[*k as usize].as_ref().unwrap();
                            if s.len() == v.len() {
                                res = Some(s.clone());
                            }
                        }
                        res.unwrap_or_else(|| Rc::from(v))
                    }
                }
            };
            self.supp[x as usize] = Some(r);
            stack.pop();
        }
        self.supp[e as usize].clone().unwrap()
    }

    pub fn kids(&self, n: &Node) -> [E; 3] {
        match n.op {
            Op::Const | Op::Sym => [0, 0, 0],
            Op::ZExt | Op::SExt | Op::Extract => [n.a, 0, 0],
            Op::Ite => [n.a, n.b, n.c],
            _ => [n.a, n.b, 0],
        }
    }

    /// Evaluates `e` under the model. `self.stamp` must identify the model.
    pub fn eval(&mut self, e: E, model: &dyn Fn(u32) -> u128) -> u128 {
        let stamp = self.stamp;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.eval_stamp[x as usize] == stamp {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let v = match n.op {
                Op::Const => n.k,
                Op::Sym => model(n.a) & mask(n.w as u32),
                _ => {
                    let kids = self.kids(&n);
                    let mut ready = true;
                    for &k in kids.iter().take_while(|k| **k != 0) {
                        if self.eval_stamp[k as usize] != stamp {
                            stack.push(k);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let va = self.eval_val[n.a as usize];
                    match n.op {
                        Op::ZExt => va,
                        Op::SExt => {
                            let iw = self.w(n.a);
                            (sext(va, iw) as u128) & mask(n.w as u32)
                        }
                        Op::Extract => (va >> n.k) & mask(n.w as u32),
                        Op::Ite => {
                            if va == 1 {
                                self.eval_val[n.b as usize]
                            } else {
                                self.eval_val[n.c as usize]
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            (va << lw) | self.eval_val[n.b as usize]
                        }
                        _ => {
                            let w = self.w(n.a);
                            fold(n.op, w, va, self.eval_val[n.b as usize]).unwrap()
                        }
                    }
                }
            };
            self.eval_val[x as usize] = v;
            self.eval_stamp[x as usize] = stamp;
            stack.pop();
        }
        self.eval_val[e as usize]
    }

    /// Rebuilds `e` with the given replacements (expression -> constant) applied.
    pub fn subst(&mut self, e: E, map: &HashMap<E, E>, memo: &mut HashMap<E, E>) -> E {
        if self.val(e).is_some() {
            return e;
        }
        if let Some(&r) = map.get(&e) {
            return r;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const | Op::Sym => e,
            Op::ZExt => {
                let a = self.subst(n.a, map, memo);
                if a == n.a {
                    e
                } else {
                    self.zext(a, n.w as u32)
                }
            }
            Op::SExt => {
                let a = self.subst(n.a, map, memo);
                if a == n.a {
                    e
                } else {
                    self.sext(a, n.w as u32)
                }
            }
            Op::Extract => {
                let a = self.subst(n.a, map, memo);
                if a == n.a {
                    e
                } else {
                    self.extract(a, n.k as u32, n.w as u32)
                }
            }
            Op::Ite => {
                let a = self.subst(n.a, map, memo);
                let b = self.subst(n.b, map, memo);
                let c = self.subst(n.c, map, memo);
                if (a, b, c) == (n.a, n.b, n.c) {
                    e
                } else {
                    self.ite(a, b, c)
                }
            }
            Op::Concat => {
                let a = self.subst(n.a, map, memo);
                let b = self.subst(n.b, map, memo);
                if (a, b) == (n.a, n.b) {
                    e
                } else {
                    self.concat(a, b)
                }
            }
            _ => {
                let a = self.subst(n.a, map, memo);
                let b = self.subst(n.b, map, memo);
                if (a, b) == (n.a, n.b) {
                    e
                } else {
                    self.bin(n.op, a, b)
                }
            }
        };
        memo.insert(e, r);
        r
    }
}
