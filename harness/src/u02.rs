//! The octet storage selected on big-endian machines.

use crate::sym::*;

#[path = "/repo/bsn1/src/buffer/universal_endian/mod.rs"]
#[allow(dead_code)]
mod universal;

use universal::Buffer;

entries!(h_u02_sequence, h_u02_longer, h_u02_deep, h_u02_sizes, h_u02_alive);

const INLINE: usize = 16;

fn same(b: &Buffer, v: &[u8]) {
    check(b.len() == v.len(), "length");
    check(b.as_slice() == v, "octets");
    check(*b == v.to_vec(), "comparison");
    check(b.capacity() >= v.len(), "capacity");
    check(b.as_ptr() == b.as_slice().as_ptr(), "pointer");
}

/// One operation on both sides.
fn step(b: &mut Buffer, v: &mut Vec<u8>, x: &[u8; 40]) {
    match choice(13) {
        0 => {
            if v.len() < b.capacity() {
                unsafe { b.push(x[0]) };
                v.push(x[0]);
                cover("push");
            }
        }
        1 | 2 => {
            let n = [1, INLINE - 1][choice(2)];
            if v.len() + n <= b.capacity() {
                unsafe { b.extend_from_slice(&x[..n]) };
                v.extend_from_slice(&x[..n]);
                cover("extend");
            }
        }
        3 => {
            let n = [0, 1, INLINE, INLINE + 1][choice(4)];
            b.reserve(n);
            check(b.capacity() >= v.len() + n, "reserved capacity");
            cover("reserve");
        }
        4 => {
            let n = [0, 2, INLINE][choice(3)];
            b.reserve(n);
            unsafe { b.extend_from_slice(&x[..n]) };
            v.extend_from_slice(&x[..n]);
            cover("write");
        }
        5 => {
            let n = v.len() / 2;
            unsafe { b.set_len(n) };
            v.truncate(n);
            cover("shorten");
        }
        6 => {
            unsafe { b.set_len(0) };
            v.clear();
        }
        7 => {
            // Filling the spare capacity by hand.
            let (l, c) = (v.len(), b.capacity());
            if l < c {
                unsafe {
                    b.as_mut_ptr().add(l).write(x[1]);
                    b.set_len(l + 1);
                }
                v.push(x[1]);
            }
        }
        8 => {
            // The clone replaces the original.
            let c = b.clone();
            check(c.capacity() >= v.len(), "capacity of a clone");
            *b = c;
            cover("clone");
        }
        9 => {
            // The clone changes; the original does not.
            let mut c = b.clone();
            same(&c, v);
            if v.len() > 0 {
                c.as_mut_slice()[0] = x[2];
                check(b.as_slice() == &v[..], "original changed with its clone");
                let mut w = v.clone();
                w[0] = x[2];
                same(&c, &w);
            }
        }
        10 => {
            let t = std::mem::replace(b, Buffer::new());
            let w = t.into_vec();
            check(&w == v, "vector");
            *b = Buffer::from_vec(w);
            cover("vector");
        }
        11 => {
            if v.len() > 0 {
                let i = [0, v.len() - 1][choice(2)];
                b.as_mut_slice()[i] = x[3];
                v[i] = x[3];
            }
        }
        _ => {
            // Moved to another place in memory.
            let boxed = Box::new(std::mem::replace(b, Buffer::new()));
            same(&boxed, v);
            *b = *boxed;
            cover("move");
        }
    }
}

fn start(x: &[u8; 40], few: bool) -> (Buffer, Vec<u8>) {
    let n = if few { [1, INLINE][choice(2)] } else { [0, 1, 13, INLINE, INLINE + 1][choice(5)] };
    match choice(if few { 2 } else { 4 }) {
        0 => {
            let mut b = Buffer::with_capacity(n);
            check(b.capacity() >= n, "capacity asked for");
            check(b.len() == 0, "new storage is empty");
            unsafe { b.extend_from_slice(&x[..n]) };
            (b, x[..n].to_vec())
        }
        1 => {
            let mut b = Buffer::new();
            b.reserve(n);
            unsafe { b.extend_from_slice(&x[..n]) };
            (b, x[..n].to_vec())
        }
        2 => {
            let v = x[..n].to_vec();
            (Buffer::from_vec(v.clone()), v)
        }
        _ => {
            let mut v = Vec::with_capacity(n + 8);
            v.extend_from_slice(&x[..n]);
            let w = v.clone();
            (Buffer::from_vec(v), w)
        }
    }
}

fn run(few: bool, steps: usize) {
    let x = bytes::<40>();
    let before = live();
    {
        let (mut b, mut v) = start(&x, few);
        same(&b, &v);
        for _ in 0..steps {
            step(&mut b, &mut v, &x);
            same(&b, &v);
        }
        if v.len() & 1 == 0 {
            check(b.into_vec() == v, "vector at the end");
        }
    }
    check(live() == before, "memory not released");
}

fn h_u02_sequence() {
    run(false, 2);
}

fn h_u02_longer() {
    run(true, 3);
}

fn h_u02_deep() {
    run(false, 3);
}

/// Growing octet by octet through both storages.
const SIZES: [usize; 47] = {
    let mut s = [0; 47];
    let mut i = 0;
    while i < 42 {
        s[i] = i;
        i += 1;
    }
    s[42] = 128;
    s[43] = 255;
    s[44] = 256;
    s[45] = 257;
    s[46] = 300;
    s
};

fn h_u02_sizes() {
    let x = bytes::<300>();
    let n = SIZES[choice(SIZES.len())];
    let before = live();
    {
        let mut b = Buffer::new();
        check((b.len() == 0) & (b.capacity() >= 1), "new storage");
        for o in &x[..n] {
            if b.len() == b.capacity() {
                b.reserve(1);
            }
            unsafe { b.push(*o) };
        }
        same(&b, &x[..n]);
        let c = b.clone();
        same(&c, &x[..n]);
        unsafe { b.set_len(n / 2) };
        same(&b, &x[..n / 2]);
        check(b.into_vec() == &x[..n / 2], "vector");
        check(c.into_vec() == &x[..n], "vector of the clone");
    }
    check(live() == before, "memory not released");
    cover("done");
}

/// Fixed-size requests far beyond the inline storage.
fn h_u02_alive() {
    alloc_limit(1 << 20);
    let x = bytes::<8>();
    let before = live();
    {
        let n = [100usize, 1000, 5000, 65527, 65528, 65529, 70000][choice(7)];
        let mut b = Buffer::new();
        unsafe { b.extend_from_slice(&x) };
        b.reserve(n);
        check(b.capacity() >= n + 8, "reserved capacity");
        let p = b.as_ptr();
        b.reserve(n);
        check(b.as_ptr() == p, "moved although the capacity sufficed");
        let y = vec![x[0]; n];
        unsafe { b.extend_from_slice(&y) };
        let mut v = x.to_vec();
        v.extend_from_slice(&y);
        same(&b, &v);
        unsafe { b.set_len(3) };
        same(&b, &x[..3]);
        let c = b.clone();
        drop(b);
        same(&c, &x[..3]);
    }
    check(live() == before, "memory not released");
    cover("done");
}
