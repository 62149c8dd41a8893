//! Derived structs.

use crate::model::*;
use crate::sym::*;
use crate::{model_struct, spec, untouched};
use bsn1_serde::de::Deserialize as De;
use bsn1_serde::ser::Serialize as Ser;
use bsn1_serde::{Deserialize, OctetString, Serialize};
use std::collections::BTreeMap;

entries!(
    h_m01_named, h_m01_tuple, h_m01_unit, h_m01_nested, h_m01_generic, h_m01_many, h_m01_text, h_m01_decode_named,
    h_m01_decode_tuple, h_m01_decode_unit, h_m01_decode_nested, h_m01_decode_generic, h_m01_decode_many, h_m01_any,
    h_m01_indefinite, h_m01_decode_indefinite, h_m01_wide, h_m01_decode_wide, h_m01_names, h_m01_params, h_m01_long
);

#[derive(Serialize, Deserialize)]
struct Named {
    b: u8,
    a: bool,
}
model_struct!([] Named, [0x30], Named { b: u8, a: bool });

#[derive(Serialize, Deserialize)]
struct Tuple(i16, u8, i16);
model_struct!([] Tuple, [0x30], Tuple { 0: i16, 1: u8, 2: i16 });

#[derive(Serialize, Deserialize)]
struct Unit;
model_struct!([] Unit, [0x30], Unit {});

#[derive(Serialize, Deserialize)]
struct Empty {}
model_struct!([] Empty, [0x30], Empty {});

#[derive(Serialize, Deserialize)]
struct Nested {
    x: Named,
    u: Unit,
    v: Vec<u8>,
}
model_struct!([] Nested, [0x30], Nested { x: Named, u: Unit, v: Vec<u8> });

#[derive(Serialize, Deserialize)]
struct Generic<A, B: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize>
where
    A: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize,
{
    first: B,
    second: A,
}
model_struct!([<A: Model + Ser + De, B: Model + Ser + De>] Generic<A, B>, [0x30], Generic { first: B, second: A });

impl<A, B> Generic<A, B>
where
    A: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize,
    B: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize,
{
    fn new(first: B, second: A) -> Self {
        Generic { first, second }
    }
}

/// Same-typed fields in an order that is not alphabetical.
#[derive(Serialize, Deserialize)]
struct Many {
    z: u8,
    m: u8,
    a: u8,
    k: u8,
}
model_struct!([] Many, [0x30], Many { z: u8, m: u8, a: u8, k: u8 });

#[derive(Serialize, Deserialize)]
struct Texts {
    t: String,
    o: OctetString<'static>,
    m: BTreeMap<u8, bool>,
}
model_struct!([] Texts, [0x30], Texts { t: String, o: OctetString<'static>, m: BTreeMap<u8, bool> });

/// Positions of two digits.
#[derive(Serialize, Deserialize)]
struct Wide(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
model_struct!([] Wide, [0x30], Wide {
    0: u8, 1: u8, 2: u8, 3: u8, 4: u8, 5: u8, 6: u8, 7: u8, 8: u8, 9: u8, 10: u8, 11: u8
});

/// Names that mean something elsewhere.
#[derive(Serialize, Deserialize)]
struct Names {
    buffer: u8,
    contents: bool,
    length: usize,
    id: u8,
    r#type: u8,
    ret: u8,
}
model_struct!([] Names, [0x30], Names { buffer: u8, contents: bool, length: usize, id: u8, r#type: u8, ret: u8 });

/// A mark that is skipped.
struct Mark<T: ?Sized>(std::marker::PhantomData<T>);
untouched!([<T: ?Sized>] Mark<T>);

impl<T: ?Sized> Default for Mark<T> {
    fn default() -> Self {
        Mark(std::marker::PhantomData)
    }
}

/// Every kind of parameter.
#[derive(Serialize, Deserialize)]
struct Params<'a, T, const N: usize>
where
    T: Clone + Ser + De,
{
    #[bsn1_serde(skip)]
    mark: Mark<&'a [T; N]>,
    v: T,
}

impl<T: Clone + Ser + De + Model, const N: usize> Model for Params<'_, T, N> {
    fn put(&self, out: &mut Vec<u8>) {
        put_raw(&[0x30], &encoding(&self.v), out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let v = field(ber, &mut c)?;
        finish(c)?;
        Ok(Params { mark: Default::default(), v })
    }
    fn same(&self, o: &Self) -> bool {
        self.v.same(&o.v)
    }
}

fn h_m01_named() {
    value(&Named { b: u8(), a: bool() });
}

fn h_m01_tuple() {
    value(&Tuple(u16() as i16, u8(), u16() as i16));
}

fn h_m01_unit() {
    value(&Unit);
    value(&Empty {});
}

fn h_m01_nested() {
    let n = choice(3);
    value(&Nested { x: Named { b: u8(), a: bool() }, u: Unit, v: [u8(), u8()][..n].to_vec() });
}

fn h_m01_generic() {
    value(&Generic::<u8, bool>::new(bool(), u8()));
    value(&Generic::<Vec<bool>, Unit>::new(Unit, vec![bool()]));
}

fn h_m01_many() {
    value(&Many { z: u8(), m: u8(), a: u8(), k: u8() });
}

fn h_m01_text() {
    let n = [0, 3, 117, 118, 119, 120, 121, 122, 127, 128, 252][choice(11)];
    let mut m = BTreeMap::new();
    if choice(2) == 1 {
        m.insert(u8(), bool());
    }
    value(&Texts { t: text(n), o: OctetString::from(bytes::<2>().to_vec()), m });
}

fn h_m01_decode_named() {
    both::<Named>(&under::<9>(&[0x30]));
}

fn h_m01_decode_tuple() {
    both::<Tuple>(&under::<11>(&[0x30]));
}

fn h_m01_decode_unit() {
    let e = under::<4>(&[0x30]);
    if choice(2) == 0 {
        both::<Unit>(&e);
    } else {
        both::<Empty>(&e);
    }
}

/// One octet of a good encoding is anything, or an octet is added or taken away.
fn altered(mut e: Vec<u8>) -> Vec<u8> {
    let i = choice(e.len() + 1);
    if i < e.len() {
        e[i] = u8();
    }
    e
}

fn h_m01_decode_nested() {
    let v = Nested { x: Named { b: u8(), a: bool() }, u: Unit, v: vec![u8()] };
    both::<Nested>(&altered(encoding(&v)));
}

fn h_m01_decode_generic() {
    both::<Generic<u8, bool>>(&under::<8>(&[0x30]));
}

/// A field more or less.
fn h_m01_decode_many() {
    let mut c = Vec::new();
    for _ in 0..2 + choice(4) {
        encode_one(&mut c);
    }
    both::<Many>(&spec::element(&[0x30], &c));
}

fn encode_one(c: &mut Vec<u8>) {
    let x = u8();
    assume(x < 0x80);
    c.extend_from_slice(&[2, 1, x]);
}

fn h_m01_any() {
    let b = bytes::<8>();
    let n = 2 + choice(7);
    both::<Named>(&b[..n]);
}

fn h_m01_indefinite() {
    forms(&Nested { x: Named { b: u8(), a: bool() }, u: Unit, v: vec![u8()] });
    forms(&Tuple(u16() as i16, 0, 1));
}

/// Any contents under the indefinite length.
fn h_m01_decode_indefinite() {
    match choice(3) {
        0 => both::<Named>(&indefinite::<8>(&[0x30])),
        1 => both::<Unit>(&indefinite::<5>(&[0x30])),
        _ => both::<Generic<Vec<bool>, Unit>>(&indefinite::<8>(&[0x30])),
    }
}

fn h_m01_wide() {
    let x = bytes::<12>().map(|b| b & 0x3f | 0x40);
    value(&Wide(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]));
}

/// Eleven to thirteen integers where twelve are expected.
fn h_m01_decode_wide() {
    let mut c = Vec::new();
    for _ in 0..11 + choice(3) {
        c.extend_from_slice(&[2, 1, u8() & 0x3f | 0x40]);
    }
    both::<Wide>(&spec::element(&[0x30], &c));
}

fn h_m01_names() {
    value(&Names { buffer: u8(), contents: bool(), length: u16() as usize, id: 1, r#type: u8() & 0x7f, ret: 2 });
}

fn h_m01_params() {
    value(&Params::<u8, 3> { mark: Default::default(), v: u8() });
    value(&Params::<Vec<bool>, 0> { mark: Default::default(), v: vec![bool()] });
    both::<Params<u8, 1>>(&under::<6>(&[0x30]));
}

/// Around 65536 octets.
fn h_m01_long() {
    alloc_limit(400000);
    let n = 65512 + choice(9);
    value(&Texts { t: text(n), o: OctetString::from(bytes::<2>().to_vec()), m: BTreeMap::new() });
}
