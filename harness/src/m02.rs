//! Derived enums.

use crate::model::*;
use crate::sym::*;
use crate::{model_enum, spec};
use bsn1_serde::{de, ser, Deserialize, Serialize};

entries!(
    h_m02_value, h_m02_decode_a, h_m02_decode_b, h_m02_decode_c, h_m02_decode_unit, h_m02_any, h_m02_nested,
    h_m02_indefinite, h_m02_decode_indefinite, h_m02_id, h_m02_long, h_m02_generic, h_m02_decode_generic, h_m02_wide
);

#[derive(PartialEq, Serialize, Deserialize)]
enum E {
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 1)]
    A,
    /// The default identifier.
    B(u8, bool),
    #[bsn1_serde(id = Set)]
    C { y: u8, x: u8 },
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE, tag_num = 31)]
    D(i16),
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 31)]
    F(),
}
model_enum!(E {
    A [0xe1] {}
    B [0x30] { 0 a: u8, 1 b: bool }
    C [0x31] { y y: u8, x x: u8 }
    D [0x9f, 31] { 0 a: i16 }
    F [0xbf, 31] {}
});

#[derive(PartialEq, Serialize, Deserialize)]
enum Outer {
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 5)]
    One(E),
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 6)]
    Two { v: Vec<E>, e: E },
}
model_enum!(Outer {
    One [0x65] { 0 a: E }
    Two [0x66] { v v: Vec<E>, e e: E }
});

#[derive(PartialEq, Serialize, Deserialize)]
enum Long {
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 0x4001)]
    A { t: String, n: u8 },
    B(u8, Vec<u8>, String),
}
model_enum!(Long {
    A [0xff, 0x81, 0x80, 1] { t t: String, n n: u8 }
    B [0x30] { 0 a: u8, 1 b: Vec<u8>, 2 c: String }
});

/// Parameters, and names that mean something elsewhere.
#[derive(PartialEq, Serialize, Deserialize)]
enum Generic<T: ser::Serialize + de::Deserialize, U>
where
    U: ser::Serialize + de::Deserialize,
{
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 1)]
    A { buffer: T, id: U, contents: u8, length: u8 },
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 2)]
    B(U, T),
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 3)]
    C,
}

type G = Generic<bool, Vec<bool>>;
model_enum!(G {
    A [0x61] { buffer a: bool, id b: Vec<bool>, contents c_: u8, length d: u8 }
    B [0x62] { 0 a: Vec<bool>, 1 b: bool }
    C [0x63] {}
});

#[derive(PartialEq, Serialize, Deserialize)]
enum Wide {
    A(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
    #[bsn1_serde(id = Set)]
    B { z: u8, m: u8, a: u8, k: u8 },
}
model_enum!(Wide {
    A [0x30] { 0 a: u8, 1 b: u8, 2 d: u8, 3 f: u8, 4 g: u8, 5 h: u8, 6 i: u8, 7 j: u8, 8 k: u8, 9 l: u8, 10 m: u8, 11 n: u8 }
    B [0x31] { z z: u8, m m: u8, a a: u8, k k: u8 }
});

fn any_e() -> E {
    match choice(5) {
        0 => E::A,
        1 => E::B(u8(), bool()),
        2 => E::C { y: u8(), x: u8() },
        3 => E::D(u16() as i16),
        _ => E::F(),
    }
}

fn h_m02_value() {
    value(&any_e());
}

fn h_m02_decode_unit() {
    let e = under::<5>([&[0xe1u8][..], &[0xbf, 31]][choice(2)]);
    both::<E>(&e);
}

fn h_m02_decode_a() {
    both::<E>(&under::<9>(&[0x30]));
}

fn h_m02_decode_b() {
    both::<E>(&under::<9>(&[0x31]));
}

fn h_m02_decode_c() {
    both::<E>(&under::<7>(&[0x9f, 31]));
}

fn h_m02_any() {
    let b = bytes::<8>();
    let n = 2 + choice(7);
    both::<E>(&b[..n]);
}

/// Any identifier around contents that suit one variant.
fn h_m02_id() {
    let b = bytes::<4>();
    let n = 1 + choice(4);
    assume(spec::id(&b[..n]) == Ok(n));
    let x = u8();
    assume(x < 0x80);
    let mut c = vec![2, 1, x];
    match choice(4) {
        0 => c.clear(),
        1 => c.extend_from_slice(&[1, 1, 0xff]),
        2 => c.extend_from_slice(&[2, 1, x]),
        _ => {}
    }
    both::<E>(&spec::element(&b[..n], &c));
}

fn h_m02_nested() {
    match choice(2) {
        0 => value(&Outer::One(any_e())),
        _ => {
            let n = choice(2);
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(any_e());
            }
            value(&Outer::Two { v, e: any_e() });
        }
    }
}

fn h_m02_indefinite() {
    match choice(2) {
        0 => forms(&any_e()),
        _ => forms(&Outer::Two { v: vec![E::C { y: u8(), x: u8() }], e: E::B(u8(), bool()) }),
    }
}

/// Any contents under the indefinite length.
fn h_m02_decode_indefinite() {
    match choice(3) {
        0 => both::<E>(&indefinite::<8>(&[0x30])),
        1 => both::<E>(&indefinite::<5>(&[0xe1])),
        _ => both::<E>(&indefinite::<7>(&[0xbf, 31])),
    }
}

/// Around the sizes where the length needs more octets.
fn h_m02_long() {
    let n = [0, 115, 120, 121, 122, 123, 124, 125, 126, 127, 128, 246, 250, 251, 252, 253, 254][choice(17)];
    let v = if choice(2) == 0 {
        Long::A { t: text(n), n: u8() }
    } else {
        Long::B(u8(), vec![1], text(n))
    };
    value(&v);
    value(&vec![v]);
}

fn h_m02_generic() {
    let k = choice(3);
    let v: Vec<bool> = [bool(), bool()][..k].to_vec();
    let g: G = match choice(3) {
        0 => Generic::A { buffer: bool(), id: v, contents: u8(), length: u8() },
        1 => Generic::B(v, bool()),
        _ => Generic::C,
    };
    value(&g);
}

fn h_m02_decode_generic() {
    let i = choice(4);
    both::<G>(&under::<8>(&[0x60 + i as u8]));
}

fn h_m02_wide() {
    let x = bytes::<12>().map(|b| b & 0x3f | 0x40);
    if choice(2) == 0 {
        value(&Wide::A(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]));
    } else {
        value(&Wide::B { z: x[0], m: x[1], a: x[2], k: x[3] });
    }
}
