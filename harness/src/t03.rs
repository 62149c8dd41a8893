//! Reading and writing again.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use crate::{model_enum, model_struct};
use bsn1_serde::de::Deserialize as De;
use bsn1_serde::ser::Serialize as Ser;
use bsn1_serde::{parse_ber, parse_der, to_ber, to_der, write_der, Deserialize, OctetString, Serialize};
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque};

entries!(
    h_t03_integers, h_t03_texts, h_t03_lists, h_t03_nested, h_t03_derived, h_t03_variants, h_t03_recursive,
    h_t03_ordered, h_t03_loose, h_t03_lengths, h_t03_identifiers
);

fn octets<T: Ser>(v: &T) -> Vec<u8> {
    match to_der(v) {
        Ok(d) => d.into_vec(),
        Err(_) => fail("what was read cannot be written"),
    }
}

/// DER that is accepted is what the value is written as; `exact` is off where order and repetition are lost.
fn der<T: Model + De + Ser>(b: &[u8], exact: bool) {
    let mut r = b;
    match parse_der::<T>(&mut r) {
        Ok(v) => {
            let d = octets(&v);
            if exact {
                check(d == b[..b.len() - r.len()], "written differently from what was read");
                let mut w = Vec::new();
                check(write_der(&v, &mut w).is_ok() && w == d, "write_der and to_der");
            } else {
                check(d.len() <= b.len() - r.len(), "written longer than what was read");
            }
            fixed(&v, &d);
            cover("DER");
        }
        Err(_) => cover("refused"),
    }
}

/// BER that is accepted has a DER form, and that form is a fixed point.
fn ber<T: Model + De + Ser>(b: &[u8]) {
    let mut r = b;
    match parse_ber::<T>(&mut r) {
        Ok(v) => {
            let d = octets(&v);
            fixed(&v, &d);
            match to_ber(&v) {
                Ok(e) => match parse_ber::<T>(&mut e.as_ref()) {
                    Ok(w) => check(w.same(&v), "BER written and read is another value"),
                    Err(_) => fail("BER written is refused"),
                },
                Err(_) => fail("what was read cannot be written as BER"),
            }
            cover("BER");
        }
        Err(_) => cover("refused"),
    }
}

fn fixed<T: Model + De + Ser>(v: &T, d: &[u8]) {
    let mut r = d;
    match parse_der::<T>(&mut r) {
        Ok(w) => {
            check(r.is_empty(), "more written than one element");
            check(w.same(v), "DER written and read is another value");
            check(octets(&w) == d, "written differently the second time");
        }
        Err(_) => fail("DER written is refused"),
    }
}

fn either<T: Model + De + Ser>(b: &[u8], exact: bool) {
    if choice(2) == 0 {
        der::<T>(b, exact);
    } else {
        ber::<T>(b);
    }
}

/// Any contents of 0 to N octets, the length as it should be or in any other one-octet form.
fn any<const N: usize>(id: u8) -> Vec<u8> {
    let mut e = under::<N>(&[id]);
    if choice(2) == 1 {
        e[1] = u8();
    }
    e
}

fn h_t03_integers() {
    match choice(6) {
        0 => either::<bool>(&any::<2>(1), true),
        1 => either::<u8>(&any::<3>(2), true),
        2 => either::<i16>(&any::<3>(2), true),
        3 => either::<u32>(&any::<6>(2), true),
        4 => either::<i64>(&any::<9>(2), true),
        _ => either::<u128>(&under::<18>(&[2]), true),
    }
}

fn h_t03_texts() {
    match choice(2) {
        0 => either::<String>(&any::<5>([0x0c, 0x2c][choice(2)]), true),
        _ => either::<OctetString>(&any::<6>([4, 0x24][choice(2)]), true),
    }
}

fn h_t03_lists() {
    match choice(3) {
        0 => either::<Vec<u8>>(&any::<7>(0x30), true),
        1 => either::<LinkedList<bool>>(&any::<7>(0x30), true),
        _ => either::<VecDeque<i16>>(&any::<7>(0x30), true),
    }
}

fn h_t03_nested() {
    either::<Vec<Vec<u8>>>(&any::<7>(0x30), true);
}

#[derive(Serialize, Deserialize)]
struct S {
    a: u8,
    b: bool,
}
model_struct!([] S, [0x30], S { a: u8, b: bool });

#[derive(Serialize, Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 200)]
struct T(String, Vec<bool>);
model_struct!([] T, [0xbf, 0x81, 0x48], T { 0: String, 1: Vec<bool> });

fn h_t03_derived() {
    if choice(2) == 0 {
        either::<S>(&any::<7>(0x30), true);
    } else {
        either::<T>(&under::<7>(&[0xbf, 0x81, 0x48]), true);
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
enum E {
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 3)]
    A(u8, bool),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 4)]
    B { x: Vec<u8> },
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 5)]
    C,
}
model_enum!(E {
    A [0xe3] { 0 a: u8, 1 b: bool }
    B [0xe4] { x x: Vec<u8> }
    C [0xe5] {}
});

fn h_t03_variants() {
    let b = bytes::<7>();
    let n = choice(8);
    let mut e = spec::element(&[0xe3 + choice(4) as u8], &b[..n]);
    if choice(2) == 1 {
        e[1] = u8();
    }
    either::<E>(&e, true);
}

/// A type that contains itself.
#[derive(Serialize, Deserialize)]
struct Tree {
    v: u8,
    kids: Vec<Tree>,
}
model_struct!([] Tree, [0x30], Tree { v: u8, kids: Vec<Tree> });

fn h_t03_recursive() {
    // At the third level, anything.
    let mut e = under::<5>(&[0x30]);
    for _ in 0..choice(3) {
        let mut c = vec![2, 1, u8()];
        let mut kids = e;
        for _ in 0..choice(2) {
            kids.extend_from_slice(&[0x30, 5, 2, 1, 9, 0x30, 0]);
        }
        c.extend_from_slice(&spec::element(&[0x30], &kids));
        e = spec::element(&[0x30], &c);
    }
    either::<Tree>(&e, true);
}

fn h_t03_ordered() {
    if choice(2) == 0 {
        either::<BTreeSet<u8>>(&any::<7>(0x30), false);
    } else {
        let mut c = Vec::new();
        for _ in 0..choice(2) {
            c.extend_from_slice(&[0x30, 6, 2, 1, u8() & 0x7f, 1, 1, 0xff]);
        }
        c.extend_from_slice(&under::<6>(&[0x30]));
        either::<BTreeMap<u8, bool>>(&spec::element(&[0x30], &c), false);
    }
}

/// Values in every mixture of definite and indefinite lengths.
fn h_t03_loose() {
    let (a, b) = (u8() & 0x7f, bool());
    let t = Tree { v: a, kids: vec![Tree { v: 1, kids: vec![] }] };
    match choice(3) {
        0 => ber::<Tree>(&loose(&encoding(&t)).0),
        1 => ber::<E>(&loose(&encoding(&E::B { x: vec![a, 3] })).0),
        _ => ber::<Vec<S>>(&loose(&encoding(&vec![S { a, b }, S { a: 7, b: false }])).0),
    }
}

/// Any form of the length in up to 3 octets, around the place where it changes.
fn h_t03_lengths() {
    let h = bytes::<3>();
    let mut e = vec![[4, 0x0c, 0x30][choice(3)]];
    e.extend_from_slice(&h[..1 + choice(3)]);
    let k = 126 + choice(5);
    // The length is `k` and takes all of the octets, or is not one.
    assume(match spec::length(&e[1..]) {
        Ok((n, used)) => (n == Some(k)) & (used == e.len() - 1),
        Err(_) => true,
    });
    match e[0] {
        0x30 => {
            e.extend_from_slice(&[1, 1, 0xff].repeat(44)[..132]);
            either::<Vec<bool>>(&e, true)
        }
        0x0c => {
            e.extend_from_slice(&[b'a'; 130]);
            either::<String>(&e, true)
        }
        _ => {
            e.extend_from_slice(&[9; 130]);
            either::<OctetString>(&e, true)
        }
    }
}

/// Any identifier of up to 4 octets.
fn h_t03_identifiers() {
    let i = bytes::<4>();
    let i = &i[..1 + choice(4)];
    match choice(4) {
        0 => either::<T>(&spec::element(i, &[0x0c, 1, b'x', 0x30, 0]), true),
        1 => either::<u8>(&spec::element(i, &[7]), true),
        2 => either::<S>(&spec::element(i, &[2, 1, 5, 1, 1, 0]), true),
        _ => either::<E>(&spec::element(i, &[0x30, 0]), true),
    }
}
