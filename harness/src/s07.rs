//! Lists and ordered sets.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1_serde::de::Deserialize;
use bsn1_serde::OctetString;
use std::collections::{BTreeSet, LinkedList, VecDeque};

entries!(
    h_s07_vec, h_s07_list, h_s07_queue, h_s07_set, h_s07_nested, h_s07_decode_vec, h_s07_decode_list,
    h_s07_decode_queue, h_s07_decode_set, h_s07_decode_nested, h_s07_any, h_s07_indefinite, h_s07_many, h_s07_more, h_s07_many_kinds
);

fn h_s07_vec() {
    let x = [u16() as i16, u16() as i16, u16() as i16];
    let n = choice(4);
    value(&x[..n].to_vec());
}

fn h_s07_list() {
    let x = [u8() as i8, u8() as i8, u8() as i8];
    let n = choice(4);
    value(&x[..n].iter().copied().collect::<LinkedList<_>>());
    let x = [bool(), bool()];
    value(&x[..choice(3)].iter().copied().collect::<LinkedList<_>>());
}

fn h_s07_queue() {
    let x = [u8(), u8(), u8()];
    let n = choice(4);
    let mut q = VecDeque::with_capacity(4);
    // Start anywhere in the ring.
    for _ in 0..choice(4) {
        q.push_back(0);
        q.pop_front();
    }
    for o in &x[..n] {
        q.push_back(*o);
    }
    value(&q);
}

fn h_s07_set() {
    let x = [u8(), u8(), u8()];
    let n = choice(4);
    let mut want: Vec<u8> = Vec::new();
    let s = x[..n].iter().copied().collect::<BTreeSet<_>>();
    value(&s);
    // In order and without repetition.
    for o in 0..n {
        if !x[..o].contains(&x[o]) {
            want.push(x[o]);
        }
    }
    want.sort();
    written(&s, &encoding(&want));
}

fn h_s07_nested() {
    let v = vec![vec![u8()], Vec::new(), vec![u8(), u8()]];
    value(&v);
    let v = vec![OctetString::from(bytes::<2>().to_vec()), OctetString::from(Vec::new())];
    value(&v);
    let v = vec![text(4)];
    value(&v);
}

/// A SEQUENCE with any contents of 0 to N octets.
fn sequence<const N: usize>() -> Vec<u8> {
    let b = bytes::<N>();
    let n = choice(N + 1);
    spec::element(&[0x30], &b[..n])
}

fn both<T: Model + Deserialize>(e: &[u8]) {
    if choice(2) == 0 {
        decode_der::<T>(e);
    } else {
        decode_ber::<T>(e);
    }
}

fn h_s07_decode_vec() {
    both::<Vec<i16>>(&sequence::<9>());
}

fn h_s07_decode_list() {
    both::<LinkedList<bool>>(&sequence::<9>());
}

fn h_s07_decode_queue() {
    both::<VecDeque<u8>>(&sequence::<9>());
}

fn h_s07_decode_set() {
    both::<BTreeSet<u8>>(&sequence::<9>());
}

fn h_s07_decode_nested() {
    both::<Vec<Vec<u8>>>(&sequence::<7>());
}

/// Any element at all.
fn h_s07_any() {
    let b = bytes::<6>();
    let n = 2 + choice(5);
    match choice(4) {
        0 => both::<Vec<u8>>(&b[..n]),
        1 => both::<LinkedList<u8>>(&b[..n]),
        2 => both::<VecDeque<u8>>(&b[..n]),
        _ => both::<BTreeSet<u8>>(&b[..n]),
    }
}

/// Any contents under the indefinite length, the end in place or not.
fn h_s07_indefinite() {
    let b = bytes::<7>();
    let n = choice(8);
    let mut e = vec![0x30, 0x80];
    e.extend_from_slice(&b[..n]);
    e.extend_from_slice(&[0, 0]);
    match choice(5) {
        0 => both::<Vec<i32>>(&e),
        1 => both::<LinkedList<bool>>(&e),
        2 => both::<VecDeque<u8>>(&e),
        3 => both::<Vec<Vec<u8>>>(&e),
        _ => both::<BTreeSet<u8>>(&e),
    }
}

/// Enough elements for long lengths; the wrong one may be anywhere.
fn h_s07_many() {
    let n = [41, 42, 43, 85, 86][choice(5)];
    let x = u8();
    assume(x < 0x80);
    let mut v = vec![x; n];
    v[n / 2] = u8();
    value(&v);
    let mut e = encoding(&v);
    let i = e.len() - 3 * (1 + choice(4));
    e[i] = u8();
    both::<Vec<u8>>(&e);
}

/// The same for the other lists.
fn h_s07_many_kinds() {
    let n = [41, 42, 43, 85, 86][choice(5)];
    let x = u8() & 0x7f;
    let v: Vec<u8> = (0..n).map(|i| if i == n / 2 { x } else { (i * 37 % 127) as u8 }).collect();
    let i = 3 * choice(3);
    match choice(3) {
        0 => {
            let l: LinkedList<u8> = v.into_iter().collect();
            value(&l);
            spoilt(&l, i);
        }
        1 => {
            let mut q = VecDeque::with_capacity(n);
            for k in 0..n / 2 {
                q.push_front(v[n / 2 - 1 - k]);
            }
            q.extend(&v[n / 2..]);
            value(&q);
            spoilt(&q, i);
        }
        _ => {
            let s: BTreeSet<u8> = (0..n).map(|i| (i * 37 % 127) as u8).collect();
            value(&s);
            spoilt(&s, i);
        }
    }
}

/// One octet of the last members is arbitrary.
fn spoilt<T: Model + Deserialize>(v: &T, i: usize) {
    let mut e = encoding(v);
    let i = e.len() - 3 - i;
    e[i + choice(2)] = u8();
    both::<T>(&e);
}

/// More elements than 8 or 10 bits can count.
fn h_s07_more() {
    alloc_limit(1 << 20);
    let n = [127, 128, 255, 256, 257, 1025][choice(6)];
    let mut v = vec![3; n];
    v[n / 2] = u8() & 0x7f;
    value(&v);
    let mut e = encoding(&v);
    let i = e.len() - 3 * (1 + choice(2));
    e[i] = u8();
    both::<Vec<u8>>(&e);
}
