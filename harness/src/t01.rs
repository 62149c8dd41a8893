//! One value after another.

use crate::model::*;
use crate::sym::*;
use crate::{model_enum, model_struct, spec};
use bsn1::Error;
use bsn1_serde::de::Deserialize as De;
use bsn1_serde::{parse_ber, parse_der, read_ber, read_der, to_der, Deserialize, OctetString, Serialize};

entries!(h_t01_slice, h_t01_slice_long, h_t01_slice_deep, h_t01_reader, h_t01_reader_deep, h_t01_stream, h_t01_values, h_t01_broken, h_t01_interrupted, h_t01_huge);

#[derive(Serialize, Deserialize)]
struct S {
    a: u8,
}
model_struct!([] S, [0x30], S { a: u8 });

#[derive(PartialEq, Serialize, Deserialize)]
enum E {
    #[bsn1_serde(tag_class = PRIVATE)]
    A(bool),
    #[bsn1_serde(id = Set)]
    B,
}
model_enum!(E {
    A [0xf0] { 0 a: bool }
    B [0x31] {}
});

/// One value off a slice; true if there may be another one.
fn slice<T: Model + De>(ber: bool, real: &mut &[u8], model: &mut &[u8]) -> bool {
    let got: Result<T, Error> = if ber { parse_ber(real) } else { parse_der(real) };
    step(ber, got, model, |rest| check(real.len() == rest, "octets left in the slice"))
}

fn step<T: Model>(ber: bool, got: Result<T, Error>, model: &mut &[u8], left: impl FnOnce(usize)) -> bool {
    match take(ber, model) {
        Ok(e) => {
            compare(got, T::get(ber, e));
            left(model.len());
            true
        }
        Err(k) => {
            compare(got, Err(k));
            cover("not an element");
            false
        }
    }
}

/// One value off a reader.
fn reader<T: Model + De>(ber: bool, real: &mut spec::Pieces, model: &mut &[u8]) -> bool {
    let got: Result<T, Error> = if ber { read_ber(real) } else { read_der(real) };
    step(ber, got, model, |rest| check(real.stop - real.pos == rest, "octets left in the reader"))
}

/// Any input; the types wanted vary.
fn h_t01_slice() {
    any_slice::<6>(3)
}

fn h_t01_slice_long() {
    any_slice::<8>(2)
}

fn h_t01_slice_deep() {
    any_slice::<9>(3)
}

fn any_slice<const N: usize>(k: usize) {
    let b = bytes::<N>();
    let n = choice(N + 1);
    let ber = choice(2) == 1;
    let (mut real, mut model) = (&b[..n], &b[..n]);
    for _ in 0..k {
        let more = match choice(3) {
            0 => slice::<u8>(ber, &mut real, &mut model),
            1 => slice::<S>(ber, &mut real, &mut model),
            _ => slice::<E>(ber, &mut real, &mut model),
        };
        if !more {
            break;
        }
    }
}

/// Any input in any pieces.
fn h_t01_reader() {
    any_reader::<5>()
}

fn h_t01_reader_deep() {
    any_reader::<7>()
}

fn any_reader<const N: usize>() {
    let b = bytes::<N>();
    let n = choice(N + 1);
    let ber = choice(2) == 1;
    let mut real = spec::Pieces::new(&b[..n]);
    let mut model = &b[..n];
    for _ in 0..2 {
        let more = match choice(2) {
            0 => reader::<u8>(ber, &mut real, &mut model),
            _ => reader::<S>(ber, &mut real, &mut model),
        };
        if !more {
            break;
        }
    }
}

fn append<T: Model + bsn1_serde::ser::Serialize>(v: &T, out: &mut Vec<u8>) {
    match to_der(v) {
        Ok(d) => out.extend_from_slice(AsRef::<[u8]>::as_ref(&d)),
        Err(_) => fail("serialization failed"),
    }
}

/// Different values in a row, from a slice and from a reader that gives what is asked for.
fn h_t01_values() {
    let (a, o, s, e) = (u16() as i16, OctetString::from(bytes::<3>().to_vec()), S { a: u8() }, E::A(bool()));
    let mut v = Vec::new();
    append(&a, &mut v);
    append(&o, &mut v);
    append(&s, &mut v);
    append(&e, &mut v);
    append(&E::B, &mut v);
    let mut r = &v[..];
    let ber = choice(2) == 1;
    if choice(2) == 0 {
        all(&[&a], &o, &s, &e, |k| match k {
            0 => One::A(if ber { parse_ber(&mut r) } else { parse_der(&mut r) }),
            1 => One::O(if ber { parse_ber(&mut r) } else { parse_der(&mut r) }),
            2 => One::S(if ber { parse_ber(&mut r) } else { parse_der(&mut r) }),
            _ => One::E(if ber { parse_ber(&mut r) } else { parse_der(&mut r) }),
        });
    } else {
        all(&[&a], &o, &s, &e, |k| match k {
            0 => One::A(if ber { read_ber(&mut r) } else { read_der(&mut r) }),
            1 => One::O(if ber { read_ber(&mut r) } else { read_der(&mut r) }),
            2 => One::S(if ber { read_ber(&mut r) } else { read_der(&mut r) }),
            _ => One::E(if ber { read_ber(&mut r) } else { read_der(&mut r) }),
        });
    }
    check(r.is_empty(), "octets left");
}

enum One {
    A(Result<i16, Error>),
    O(Result<OctetString<'static>, Error>),
    S(Result<S, Error>),
    E(Result<E, Error>),
}

fn all(a: &[&i16; 1], o: &OctetString<'static>, s: &S, e: &E, mut next: impl FnMut(usize) -> One) {
    for k in 0..5 {
        match next(k) {
            One::A(Ok(x)) => check(x.same(a[0]), "integer"),
            One::O(Ok(x)) => check(x.same(o), "octet string"),
            One::S(Ok(x)) => check(x.same(s), "struct"),
            One::E(Ok(x)) => check(if k == 3 { x.same(e) } else { x == E::B }, "enum"),
            _ => fail("refused"),
        }
    }
    cover("read back");
}

/// Two elements of known shape, any pieces.
fn h_t01_stream() {
    let ber = choice(2) == 1;
    let x = u8();
    let mut v = vec![0x30, 3, 2, 1, x];
    if ber && choice(2) == 1 {
        v = vec![0x30, 0x80, 2, 1, x, 0, 0];
        cover("indefinite");
    }
    v.extend_from_slice(&[u8(), 1, 0]);
    let mut real = spec::Pieces::new(&v);
    let mut model = &v[..];
    if reader::<S>(ber, &mut real, &mut model) {
        reader::<bool>(ber, &mut real, &mut model);
    }
}

/// The reader fails in the second element.
fn h_t01_broken() {
    let ber = choice(2) == 1;
    let v = [4u8, 1, u8(), 2, 1, 7];
    let mut real = spec::Pieces::new(&v);
    real.stop = 3 + choice(4);
    real.fails = true;
    let first: Result<OctetString, Error> = if ber { read_ber(&mut real) } else { read_der(&mut real) };
    match first {
        Ok(o) => check(o.into_vec() == v[2..3], "first value"),
        Err(_) => fail("first value refused"),
    }
    let second: Result<u8, Error> = if ber { read_ber(&mut real) } else { read_der(&mut real) };
    match second {
        Ok(x) => {
            check((x == 7) & (real.stop == 6), "second value");
            cover("accepted");
        }
        Err(e) => {
            check((real.stop < 6) & (spec::root(&e) == spec::IO), "failure of the reader");
            cover("refused");
        }
    }
}

/// Interrupted reads do not show.
fn h_t01_interrupted() {
    let b = bytes::<4>();
    let n = choice(5);
    let ber = choice(2) == 1;
    let mut real = spec::Pieces::new(&b[..n]);
    real.interrupt = true;
    let mut model = &b[..n];
    if reader::<OctetString<'static>>(ber, &mut real, &mut model) {
        real.interrupt = true;
        reader::<bool>(ber, &mut real, &mut model);
    }
}

/// Long values between short ones.
fn h_t01_huge() {
    alloc_limit(1 << 20);
    let n = [127, 128, 255, 256, 4096, 8192, 65535, 65536, 70000][choice(9)];
    let mut c = vec![0; n];
    c[0] = u8();
    c[n - 1] = u8();
    let (o, s, x) = (OctetString::from(c), S { a: u8() }, u16() & 0x7fff);
    let mut v = Vec::new();
    append(&s, &mut v);
    append(&o, &mut v);
    append(&x, &mut v);
    append(&o, &mut v);
    let ber = choice(2) == 1;
    let slice = choice(2) == 0;
    let mut r = &v[..];
    check(matches!(one::<S>(ber, slice, &mut r), Ok(y) if y.a == s.a), "first value");
    check(matches!(one::<OctetString>(ber, slice, &mut r), Ok(y) if y == o), "long value");
    check(matches!(one::<u16>(ber, slice, &mut r), Ok(y) if y == x), "value after the long one");
    check(matches!(one::<OctetString>(ber, slice, &mut r), Ok(y) if y == o), "last value");
    check(r.is_empty(), "octets left");
    cover("read back");
}

fn one<T: De>(ber: bool, slice: bool, r: &mut &[u8]) -> Result<T, Error> {
    match (ber, slice) {
        (true, true) => parse_ber(r),
        (true, false) => read_ber(r),
        (false, true) => parse_der(r),
        (false, false) => read_der(r),
    }
}
