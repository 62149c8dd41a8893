//! Where in a value decoding failed.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1::{BerRef, DerRef, Error};
use bsn1_serde::de::Deserialize as De;
use bsn1_serde::{from_ber, from_der, Deserialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Write;

entries!(
    h_e03_list, h_e03_many, h_e03_map, h_e03_hash, h_e03_nested, h_e03_fields, h_e03_tuple, h_e03_variant,
    h_e03_transparent, h_e03_deep
);

/// One step from a value to a part of it.
#[derive(Clone, Copy, PartialEq)]
enum Step {
    Index(usize),
    Name(&'static str),
}
use Step::*;

const NAMES: [&str; 4] = ["alpha", "beta", "gamma", "delta"];

/// A type whose decoding errors say where they come from.
trait Place: Model {
    /// The way to the part of `e` that cannot be decoded, and the reason.
    fn place(ber: bool, e: El, way: &mut Vec<Step>) -> Result<(), u8>;
}

/// The next part of a composite.
fn part<T: Place>(ber: bool, b: &mut &[u8], step: Step, way: &mut Vec<Step>) -> Result<(), u8> {
    way.push(step);
    let e = take(ber, b)?;
    T::place(ber, e, way)?;
    way.pop();
    Ok(())
}

macro_rules! leaf {
    ($($t:ty)*) => { $(
        impl Place for $t {
            fn place(ber: bool, e: El, _: &mut Vec<Step>) -> Result<(), u8> {
                <$t>::get(ber, e).map(|_| ())
            }
        }
    )* };
}
leaf!(u8 bool String);

macro_rules! list {
    ($t:ident, $id:expr $(, $b:path)*) => {
        impl<T: Place $(+ $b)*> Place for $t<T> {
            fn place(ber: bool, e: El, way: &mut Vec<Step>) -> Result<(), u8> {
                expect(&e, &[$id])?;
                let mut b = e.contents;
                let mut i = 0;
                while !b.is_empty() {
                    part::<T>(ber, &mut b, Index(i), way)?;
                    i += 1;
                }
                Ok(())
            }
        }
    };
}
list!(Vec, 0x30);
list!(LinkedList, 0x30);
list!(VecDeque, 0x30);
list!(BTreeSet, 0x30, Ord);
list!(HashSet, 0x31, std::hash::Hash, Eq);

macro_rules! map {
    ($t:ident, $id:expr $(, $b:path)*) => {
        impl<K: Place $(+ $b)*, V: Place> Place for $t<K, V> {
            fn place(ber: bool, e: El, way: &mut Vec<Step>) -> Result<(), u8> {
                expect(&e, &[$id])?;
                let mut b = e.contents;
                let mut i = 0;
                while !b.is_empty() {
                    way.push(Index(i));
                    let p = take(ber, &mut b)?;
                    if p.id != [0x30] {
                        return Err(spec::PAIR);
                    }
                    let mut c = p.contents;
                    let k = take(ber, &mut c)?;
                    let v = take(ber, &mut c)?;
                    if !c.is_empty() {
                        return Err(spec::PAIR);
                    }
                    K::place(ber, k, way)?;
                    V::place(ber, v, way)?;
                    way.pop();
                    i += 1;
                }
                Ok(())
            }
        }
    };
}
map!(BTreeMap, 0x30, Ord);
map!(HashMap, 0x31, std::hash::Hash, Eq);

/// The words of a message that tell a place: numbers and the names of fields.
struct Words<'a> {
    /// What is still expected.
    want: &'a [Step],
    word: [u8; 8],
    n: usize,
}

impl Words<'_> {
    fn end(&mut self) {
        let w = &self.word[..self.n.min(8)];
        let (long, empty) = (self.n > 8, self.n == 0);
        self.n = 0;
        if long | empty {
            return;
        }
        let step = if w.iter().all(|b| b.is_ascii_digit()) {
            Index(w.iter().fold(0, |n, b| n * 10 + (b - b'0') as usize))
        } else {
            match NAMES.iter().find(|n| n.as_bytes() == w) {
                Some(n) => Name(n),
                None => return,
            }
        };
        match self.want.split_first() {
            Some((s, rest)) => {
                check(*s == step, "the error names another place");
                self.want = rest;
            }
            None => fail("the error names more places than there are"),
        }
    }
}

impl Write for Words<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            if b.is_ascii_alphanumeric() | (b == b'_') {
                if self.n < 8 {
                    self.word[self.n] = b;
                }
                self.n += 1;
            } else {
                self.end();
            }
        }
        Ok(())
    }
}

fn told(e: &Error, way: &[Step]) {
    let mut w = Words { want: way, word: [0; 8], n: 0 };
    match e.as_anyhow() {
        Some(a) => {
            for c in a.chain() {
                if c.downcast_ref::<Error>().is_some() | c.downcast_ref::<Odd>().is_some() {
                    break;
                }
                let _ = write!(w, "{}", c);
                w.end();
            }
        }
        None => (),
    }
    check(w.want.is_empty(), "the error does not name the place");
}

fn compare<T: Place>(got: Result<T, Error>, ber: bool, e: El) {
    let mut way = Vec::new();
    match (got, T::place(ber, e, &mut way)) {
        (Ok(_), Ok(())) => cover("accepted"),
        (Err(e), Err(k)) => {
            let r = spec::root(&e);
            let either = (k == EITHER) & ((r == spec::UNMATCHED) | (r == spec::INDEFINITE));
            if k == CONVERSION {
                check(carries_odd(&e), "error of the conversion");
            } else {
                check((r == k) | either, "reason of refusal");
            }
            told(&e, &way);
            if way.is_empty() {
                cover("as a whole");
            } else {
                cover("a part");
            }
        }
        (Ok(_), Err(_)) => fail("accepted, should be refused"),
        (Err(_), Ok(())) => fail("refused, should be accepted"),
    }
}

/// Decoding of the contents `c` under `id`, as DER or as BER in either form.
fn decode<T: Place + De>(id: &[u8], c: &[u8]) {
    let form = choice(3);
    let mut b;
    if form == 2 {
        b = id.to_vec();
        b.push(0x80);
        b.extend_from_slice(c);
        b.extend_from_slice(&[0, 0]);
    } else {
        b = spec::element(id, c);
    }
    let e = El { id, indefinite: form == 2, contents: c };
    if form == 0 {
        compare(from_der::<T>(unsafe { DerRef::from_bytes_unchecked(&b) }), false, e);
    } else {
        compare(from_ber::<T>(unsafe { BerRef::from_bytes_unchecked(&b) }), true, e);
    }
}

/// `n` well-formed numbers and up to `N` arbitrary octets.
fn tail<const N: usize>(n: usize) -> Vec<u8> {
    let mut c = Vec::new();
    for i in 0..n {
        c.extend_from_slice(&[2, 1, i as u8 & 0x7f]);
    }
    let b = bytes::<N>();
    let k = choice(N + 1);
    c.extend_from_slice(&b[..k]);
    c
}

fn h_e03_list() {
    let c = tail::<4>(choice(4));
    match choice(4) {
        0 => decode::<Vec<u8>>(&[0x30], &c),
        1 => decode::<LinkedList<u8>>(&[0x30], &c),
        2 => decode::<VecDeque<u8>>(&[0x30], &c),
        _ => decode::<BTreeSet<u8>>(&[0x30], &c),
    }
}

/// Positions of two and three figures.
fn h_e03_many() {
    let c = tail::<3>([9, 10, 11, 99, 100, 127, 255, 256, 257, 1000][choice(10)]);
    decode::<Vec<u8>>(&[0x30], &c);
}

fn h_e03_map() {
    let n = choice(3);
    let mut c = Vec::new();
    for i in 0..n {
        c.extend_from_slice(&[0x30, 6, 2, 1, i as u8, 1, 1, 0xff]);
    }
    match choice(3) {
        // Any octets.
        0 => {
            let b = bytes::<4>();
            let k = choice(5);
            c.extend_from_slice(&b[..k]);
        }
        // A pair of any contents.
        1 => {
            let b = bytes::<6>();
            let k = choice(7);
            c.extend_from_slice(&spec::element(&[0x30], &b[..k]));
        }
        // Any value.
        _ => {
            let b = bytes::<4>();
            let k = choice(5);
            let mut p = vec![2, 1, 0x40];
            p.extend_from_slice(&b[..k]);
            c.extend_from_slice(&spec::element(&[0x30], &p));
        }
    }
    decode::<BTreeMap<u8, bool>>(&[0x30], &c);
}

fn h_e03_hash() {
    let n = choice(3);
    let b = bytes::<3>();
    let k = choice(4);
    let mut c = Vec::new();
    if choice(2) == 0 {
        for i in 0..n {
            c.extend_from_slice(&[0x30, 6, 2, 1, i as u8, 1, 1, 0xff]);
        }
        let mut p = vec![2, 1, 0x40];
        p.extend_from_slice(&b[..k]);
        c.extend_from_slice(&spec::element(&[0x30], &p));
        decode::<HashMap<u8, bool>>(&[0x31], &c);
    } else {
        for i in 0..n {
            c.extend_from_slice(&[2, 1, i as u8]);
        }
        // Never a number.
        assume(b[0] != 2);
        c.extend_from_slice(&b[..k]);
        decode::<HashSet<u8>>(&[0x31], &c);
    }
}

fn h_e03_nested() {
    let (n, m) = (choice(3), choice(3));
    let mut c = Vec::new();
    for i in 0..n {
        c.extend_from_slice(&[0x30, 3, 2, 1, i as u8]);
    }
    c.extend_from_slice(&spec::element(&[0x30], &tail::<4>(m)));
    decode::<Vec<Vec<u8>>>(&[0x30], &c);
}

#[derive(Deserialize)]
struct S {
    alpha: u8,
    #[bsn1_serde(skip_deserializing)]
    #[allow(dead_code)]
    gamma: u8,
    beta: bool,
    #[bsn1_serde(try_from = "u8")]
    delta: Even,
}

/// An even number.
struct Even(u8);

impl TryFrom<u8> for Even {
    type Error = Odd;
    fn try_from(v: u8) -> Result<Self, Odd> {
        if v & 1 == 0 {
            Ok(Even(v))
        } else {
            Err(Odd(v))
        }
    }
}

/// Only the place matters here.
macro_rules! placed {
    ($t:ty, |$ber:ident, $e:ident, $way:ident| $b:expr) => {
        impl Model for $t {
            fn put(&self, _: &mut Vec<u8>) {}
            fn get(_: bool, _: El) -> Result<Self, u8> {
                fail("harness")
            }
            fn same(&self, _: &Self) -> bool {
                true
            }
        }
        impl Place for $t {
            fn place($ber: bool, $e: El, $way: &mut Vec<Step>) -> Result<(), u8> {
                $b
            }
        }
    };
}

placed!(Even, |ber, e, _way| {
    if u8::get(ber, e)? & 1 == 0 {
        Ok(())
    } else {
        Err(CONVERSION)
    }
});

placed!(S, |ber, e, way| {
    expect(&e, &[0x30])?;
    let mut b = e.contents;
    part::<u8>(ber, &mut b, Name("alpha"), way)?;
    part::<bool>(ber, &mut b, Name("beta"), way)?;
    part::<Even>(ber, &mut b, Name("delta"), way)?;
    finish(b)
});

fn h_e03_fields() {
    let b = bytes::<4>();
    let k = choice(5);
    let (x, y) = (u8(), u8());
    let mut c = vec![2, 1, x, 1, 1, y];
    c.truncate(3 * choice(3));
    c.extend_from_slice(&b[..k]);
    decode::<S>(&[0x30], &c);
}

#[derive(Deserialize)]
struct T(u8, bool, Vec<u8>);

placed!(T, |ber, e, way| {
    expect(&e, &[0x30])?;
    let mut b = e.contents;
    part::<u8>(ber, &mut b, Index(0), way)?;
    part::<bool>(ber, &mut b, Index(1), way)?;
    part::<Vec<u8>>(ber, &mut b, Index(2), way)?;
    finish(b)
});

fn h_e03_tuple() {
    let (x, y) = (u8(), u8());
    let mut c = vec![2, 1, x, 1, 1, y];
    match choice(4) {
        k @ 0..=2 => {
            c.truncate(3 * k);
            let b = bytes::<4>();
            let k = choice(5);
            c.extend_from_slice(&b[..k]);
        }
        _ => c.extend_from_slice(&spec::element(&[0x30], &tail::<3>(choice(3)))),
    }
    decode::<T>(&[0x30], &c);
}

#[derive(Deserialize)]
enum E {
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 1)]
    A { alpha: u8, beta: bool },
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 2)]
    B(bool, #[bsn1_serde(try_from = "u8")] Even),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 3)]
    C { gamma: Vec<S> },
}

placed!(E, |ber, e, way| {
    let mut b = e.contents;
    match e.id {
        [0xe1] => {
            part::<u8>(ber, &mut b, Name("alpha"), way)?;
            part::<bool>(ber, &mut b, Name("beta"), way)?;
        }
        [0xe2] => {
            part::<bool>(ber, &mut b, Index(0), way)?;
            part::<Even>(ber, &mut b, Index(1), way)?;
        }
        [0xe3] => part::<Vec<S>>(ber, &mut b, Name("gamma"), way)?,
        _ => return Err(spec::UNMATCHED),
    }
    finish(b)
});

fn h_e03_variant() {
    let b = bytes::<4>();
    let k = choice(5);
    let v = choice(4) as u8;
    let mut c = [vec![], vec![2, 1, 5], vec![1, 1, 0xff], vec![]][v as usize].clone();
    if choice(2) == 0 {
        c.clear();
    }
    c.extend_from_slice(&b[..k]);
    decode::<E>(&[0xe0 + v], &c);
}

/// Through an enum, a list and a struct.
fn h_e03_deep() {
    let n = choice(3);
    let mut l = Vec::new();
    for _ in 0..n {
        l.extend_from_slice(&[0x30, 9, 2, 1, 7, 1, 1, 0, 2, 1, 4]);
    }
    let (x, y) = (u8(), u8());
    let mut c = vec![2, 1, x, 1, 1, y];
    let b = bytes::<3>();
    let k = choice(4);
    c.truncate(3 * choice(3));
    c.extend_from_slice(&b[..k]);
    l.extend_from_slice(&spec::element(&[0x30], &c));
    decode::<E>(&[0xe3], &spec::element(&[0x30], &l));
}

#[derive(Deserialize)]
#[bsn1_serde(transparent)]
struct W {
    #[bsn1_serde(skip_deserializing)]
    #[allow(dead_code)]
    alpha: u8,
    beta: Vec<u8>,
}

placed!(W, |ber, e, way| {
    way.push(Name("beta"));
    Vec::<u8>::place(ber, e, way)?;
    way.pop();
    Ok(())
});

#[derive(Deserialize)]
#[bsn1_serde(transparent)]
struct X {
    #[bsn1_serde(try_from = "u8")]
    delta: Even,
}

placed!(X, |ber, e, way| {
    way.push(Name("delta"));
    Even::place(ber, e, way)?;
    way.pop();
    Ok(())
});

fn h_e03_transparent() {
    if choice(2) == 0 {
        decode::<W>(&[[0x30, 0x31][choice(2)]], &tail::<4>(choice(3)));
    } else {
        let b = bytes::<3>();
        let k = choice(4);
        decode::<X>(&[2], &b[..k]);
    }
}
