//! Hostile input.

use crate::model::*;
use crate::sym::*;
use crate::{model_enum, model_struct};
use bsn1::{Ber, BerRef, Contents, Der, DerRef, Id, IdRef, Length};
use bsn1_serde::de::Deserialize as De;
use bsn1_serde::{parse_ber, parse_der, read_ber, read_der, Deserialize, OctetString, Serialize};
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque};

entries!(
    h_t02_elements, h_t02_accessors, h_t02_simple, h_t02_lists, h_t02_maps, h_t02_derived, h_t02_huge,
    h_t02_huge_inside, h_t02_deep, h_t02_readers, h_t02_readers_deep
);

#[derive(Serialize, Deserialize)]
struct S {
    a: u8,
    #[bsn1_serde(skip)]
    b: u8,
    c: Vec<bool>,
}

impl Model for S {
    fn put(&self, _: &mut Vec<u8>) {}
    fn get(_: bool, _: El) -> Result<Self, u8> {
        Err(0)
    }
    fn same(&self, o: &Self) -> bool {
        (self.a == o.a) & (self.b == o.b) & self.c.same(&o.c)
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
enum E {
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 40)]
    A(bool, String),
    B {
        x: i16,
    },
    #[bsn1_serde(tag_class = PRIVATE)]
    C,
}
model_enum!(E {
    A [0xff, 40] { 0 a: bool, 1 b: String }
    B [0x30] { x x: i16 }
    C [0xf0] {}
});

#[derive(Serialize, Deserialize)]
struct Deep {
    v: Vec<Vec<u8>>,
}
model_struct!([] Deep, [0x30], Deep { v: Vec<Vec<u8>> });

/// Nothing stays reserved, and what DER accepts BER accepts with the same result.
fn hostile<T: Model + De>(b: &[u8]) {
    let n = live();
    {
        let (mut x, mut y) = (b, b);
        let d = parse_der::<T>(&mut x);
        let e = parse_ber::<T>(&mut y);
        if let Ok(d) = &d {
            match &e {
                Ok(e) => check(d.same(e), "DER and BER give different values"),
                Err(_) => fail("accepted as DER, refused as BER"),
            }
            check(x.len() == y.len(), "DER and BER consume differently");
            cover("DER");
        } else if e.is_ok() {
            cover("BER only");
        } else {
            cover("refused");
        }
    }
    check(live() == n, "memory not released");
}

/// The same from readers.
fn hostile_reader<T: Model + De>(b: &[u8]) {
    let n = live();
    {
        let (mut x, mut y) = (b, b);
        let d = read_der::<_, T>(&mut x);
        let e = read_ber::<_, T>(&mut y);
        if let Ok(d) = &d {
            match &e {
                Ok(e) => check(d.same(e), "DER and BER give different values"),
                Err(_) => fail("accepted as DER, refused as BER"),
            }
            check(x.len() == y.len(), "DER and BER consume differently");
            cover("DER");
        } else if e.is_err() {
            cover("refused");
        }
    }
    check(live() == n, "memory not released");
}

/// Elements of both kinds, all parsers.
fn h_t02_elements() {
    let b = bytes::<9>();
    let n = choice(10);
    let all = &b[..n];
    let k = live();
    {
        let d = DerRef::parse(&mut &all[..]);
        let e = BerRef::parse(&mut &all[..]);
        match (&d, &e) {
            (Ok(d), Ok(e)) => {
                check(AsRef::<[u8]>::as_ref(*d) == AsRef::<[u8]>::as_ref(*e), "DER and BER elements");
                cover("DER");
            }
            (Ok(_), Err(_)) => fail("accepted as DER, refused as BER"),
            (Err(_), Ok(_)) => cover("BER only"),
            _ => cover("refused"),
        }
        check(Der::parse(&mut &all[..]).is_ok() == d.is_ok(), "Der and DerRef");
        check(Ber::parse(&mut &all[..]).is_ok() == e.is_ok(), "Ber and BerRef");
        let _ = Id::parse(&mut &all[..]).is_ok();
        let _ = IdRef::parse(&mut &all[..]).is_ok();
        let _ = Length::parse(&mut &all[..]).is_ok();
    }
    check(live() == k, "memory not released");
}

/// Whatever parses can be looked at.
fn h_t02_accessors() {
    let b = bytes::<9>();
    let n = choice(10);
    let all = &b[..n];
    let k = live();
    {
        if let Ok(e) = BerRef::parse(&mut &all[..]) {
            let (i, l, c) = e.disassemble();
            contents(c);
            identifier(i);
            let m = match l {
                Length::Definite(m) => m,
                Length::Indefinite => c.len(),
            };
            check(m == c.len(), "length and contents");
            check(e.id().len() + e.contents().len() < AsRef::<[u8]>::as_ref(e).len(), "parts of the element");
            let o = Ber::from(e);
            check(AsRef::<[u8]>::as_ref(&o) == AsRef::<[u8]>::as_ref(e), "copy");
            cover("BER");
        }
        if let Ok(e) = DerRef::parse(&mut &all[..]) {
            let (i, l, c) = e.disassemble();
            contents(c);
            identifier(i);
            check(l == Length::Definite(c.len()), "length and contents of DER");
            let o = Ber::from(Der::from(e));
            check(AsRef::<[u8]>::as_ref(&o) == AsRef::<[u8]>::as_ref(e), "copy of DER");
            cover("DER");
        }
    }
    check(live() == k, "memory not released");
}

fn contents(c: &bsn1::ContentsRef) {
    let _ = c.to_bool_ber().is_ok();
    let _ = c.to_bool_der().is_ok();
    let _ = c.to_integer::<i8>().is_ok();
    let _ = c.to_integer::<u32>().is_ok();
    let _ = c.to_integer::<i128>().is_ok();
    let _ = Contents::from(c).len();
}

fn identifier(i: &IdRef) {
    let _ = i.number().is_ok();
    let _ = i.class();
    let _ = i.pc();
    let _ = Id::from(i).len();
}

fn h_t02_simple() {
    let b = bytes::<8>();
    let n = choice(9);
    let b = &b[..n];
    match choice(6) {
        0 => hostile::<bool>(b),
        1 => hostile::<i8>(b),
        2 => hostile::<u64>(b),
        3 => hostile::<String>(&b[..if n > 6 { 6 } else { n }]),
        4 => hostile::<OctetString<'static>>(b),
        _ => hostile::<i128>(b),
    }
}

fn h_t02_lists() {
    let b = bytes::<8>();
    let n = choice(9);
    let b = &b[..n];
    match choice(5) {
        0 => hostile::<Vec<u8>>(b),
        1 => hostile::<Vec<Vec<bool>>>(b),
        2 => hostile::<LinkedList<i16>>(b),
        3 => hostile::<VecDeque<bool>>(b),
        _ => hostile::<BTreeSet<u8>>(b),
    }
}

fn h_t02_maps() {
    let b = bytes::<8>();
    let n = choice(9);
    let b = &b[..n];
    match choice(3) {
        0 => hostile::<BTreeMap<u8, bool>>(b),
        1 => hostile::<BTreeMap<bool, Vec<u8>>>(b),
        _ => hostile::<Vec<BTreeMap<u8, u8>>>(b),
    }
}

fn h_t02_derived() {
    let b = bytes::<8>();
    let n = choice(9);
    let b = &b[..n];
    match choice(3) {
        0 => hostile::<S>(b),
        1 => hostile::<E>(b),
        _ => hostile::<Deep>(b),
    }
}

/// Lengths of up to 8 octets that promise more than there is.
fn huge() -> Vec<u8> {
    let k = 1 + choice(9);
    let mut v = vec![0x80 | k as u8];
    v.extend_from_slice(&bytes::<9>()[..k]);
    v
}

fn h_t02_huge() {
    let mut v = vec![[0x30, 4, 0x0c, 2][choice(4)]];
    v.extend_from_slice(&huge());
    v.extend_from_slice(&bytes::<3>());
    match choice(4) {
        0 => hostile::<Vec<u8>>(&v),
        1 => hostile_reader::<Vec<u8>>(&v),
        2 => hostile::<OctetString<'static>>(&v),
        _ => hostile_reader::<OctetString<'static>>(&v),
    }
}

fn h_t02_huge_inside() {
    let mut c = vec![[0x30, 4, 0x0c, 2][choice(4)]];
    c.extend_from_slice(&huge());
    c.extend_from_slice(&bytes::<2>());
    let mut v = vec![0x30];
    if choice(2) == 0 {
        v.push(c.len() as u8);
        v.extend_from_slice(&c);
    } else {
        v.push(0x80);
        v.extend_from_slice(&c);
        v.extend_from_slice(&[0, 0]);
    }
    match choice(4) {
        0 => hostile::<Vec<OctetString<'static>>>(&v),
        1 => hostile_reader::<Vec<OctetString<'static>>>(&v),
        2 => hostile::<BTreeMap<u8, u8>>(&v),
        _ => hostile::<S>(&v),
    }
}

/// Indefinite lengths inside each other.
fn h_t02_deep() {
    let k = [1, 2, 3, 5, 12][choice(5)];
    let mut v = Vec::new();
    for _ in 0..k {
        v.extend_from_slice(&[0x30, 0x80]);
    }
    v.extend_from_slice(&bytes::<3>());
    let m = [0, k - 1, k, k + 1][choice(4)];
    for _ in 0..m {
        v.extend_from_slice(&[0, 0]);
    }
    hostile::<Vec<Vec<u8>>>(&v);
    hostile_reader::<Vec<Vec<u8>>>(&v);
}

fn h_t02_readers() {
    any_reader::<6>()
}

fn h_t02_readers_deep() {
    any_reader::<8>()
}

fn any_reader<const N: usize>() {
    let b = bytes::<N>();
    let n = choice(N + 1);
    let b = &b[..n];
    match choice(3) {
        0 => hostile_reader::<u16>(b),
        1 => hostile_reader::<Vec<bool>>(b),
        _ => hostile_reader::<S>(b),
    }
}
