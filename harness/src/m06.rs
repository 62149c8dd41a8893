//! Transparent structs.

use crate::model::*;
use crate::sym::*;
use crate::{model_struct, untouched};
use bsn1_serde::{from_ber, from_der, parse_ber, parse_der, to_der, Deserialize, OctetString, Serialize};
use bsn1_serde::{de, ser};

entries!(
    h_m06_int, h_m06_named, h_m06_list, h_m06_converted, h_m06_nested, h_m06_decode_int, h_m06_decode_named,
    h_m06_decode_list, h_m06_decode_converted, h_m06_decode_try, h_m06_quiet, h_m06_apart, h_m06_indefinite
);

/// A wrapper behaves as the wrapped type.
macro_rules! wraps {
    ([$($g:tt)*] $t:ty, $inner:ty, $x:ident => $get:expr, $y:ident => $make:expr) => {
        impl $($g)* Model for $t {
            fn put(&self, out: &mut Vec<u8>) {
                let $x = self;
                $get.put(out)
            }
            fn get(ber: bool, e: El) -> Result<Self, u8> {
                let $y = <$inner>::get(ber, e)?;
                $make
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    };
}

#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Int(i16);
wraps!([] Int, i16, x => x.0, y => Ok(Int(y)));

fn seven() -> u8 {
    7
}

#[derive(PartialEq)]
struct Foreign(u8);

impl Default for Foreign {
    fn default() -> Self {
        Foreign(42)
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Named {
    #[bsn1_serde(skip)]
    before: Foreign,
    x: String,
    #[bsn1_serde(skip, default = "seven")]
    after: u8,
}
wraps!([] Named, String, x => x.x, y => Ok(Named { before: Foreign(42), x: y, after: 7 }));

#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct List<T>(Vec<T>)
where
    T: ser::Serialize + de::Deserialize;
wraps!([<T: Model + PartialEq + ser::Serialize + de::Deserialize>] List<T>, Vec<T>, x => x.0, y => Ok(List(y)));

/// Which field counts may differ between the two directions.
#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Split {
    #[bsn1_serde(skip_deserializing, default = "seven")]
    out: u8,
    #[bsn1_serde(skip_serializing)]
    inn: bool,
}

#[derive(PartialEq, Clone)]
struct Plus(u8);
untouched!([] Plus, [] Foreign);

impl From<u8> for Plus {
    fn from(x: u8) -> Self {
        Plus(x ^ 0x33)
    }
}

impl From<Plus> for u8 {
    fn from(x: Plus) -> u8 {
        x.0 ^ 0x33
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Converted(#[bsn1_serde(into = "u8", from = "u8")] Plus, #[bsn1_serde(skip)] u8);
wraps!([] Converted, u8, x => (x.0.0 ^ 0x33), y => Ok(Converted(Plus(y ^ 0x33), 0)));

#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Tried {
    #[bsn1_serde(skip)]
    y: u8,
    #[bsn1_serde(to = "OctetString::new", try_from = "OctetString")]
    x: String,
}
wraps!([] Tried, OctetString<'static>, x => OctetString::from(x.x.clone()), y => {
    let v: Vec<u8> = y.into_vec();
    if utf8(&v) {
        Ok(Tried { y: 0, x: unsafe { String::from_utf8_unchecked(v) } })
    } else {
        Err(crate::spec::WRAPPED)
    }
});

/// Exactly the sizes the field announces.
fn as_inner<T: ser::Serialize, U: ser::Serialize>(t: &T, u: &U) {
    match (t.id_len(), u.id_len()) {
        (Ok(a), Ok(b)) => check(a == b, "announced size of the identifier"),
        _ => fail("size of the identifier failed"),
    }
    match (t.der_contents_len(), u.der_contents_len()) {
        (Ok(a), Ok(b)) => check(a == b, "announced size of the contents"),
        _ => fail("size of the contents failed"),
    }
    match (to_der(t), to_der(u)) {
        (Ok(a), Ok(b)) => check(a == b, "encoding"),
        _ => fail("serialization failed"),
    }
}

fn h_m06_int() {
    let v = Int(u16() as i16);
    value(&v);
    as_inner(&v, &v.0);
}

fn h_m06_named() {
    let n = [0, 4, 127, 128][choice(4)];
    let v = Named { before: Foreign(42), x: text(n), after: 7 };
    value(&v);
    let w = Named { before: Foreign(u8()), x: v.x.clone(), after: u8() };
    written(&w, &encoding(&v));
    as_inner(&w, &v.x);
}

fn h_m06_list() {
    let n = choice(3);
    let v = List([u8(), u8()][..n].to_vec());
    value(&v);
    as_inner(&v, &v.0);
}

fn h_m06_converted() {
    value(&Converted(Plus(u8()), 0));
    written(&Converted(Plus(3), u8()), &encoding(&Converted(Plus(3), 0)));
    let n = [0, 4][choice(2)];
    value(&Tried { y: 0, x: text(n) });
}

fn h_m06_nested() {
    value(&vec![Int(u16() as i16), Int(0)]);
    value(&List(vec![List(vec![bool()])]));
}

fn h_m06_decode_int() {
    let b = bytes::<8>();
    let n = 2 + choice(7);
    both::<Int>(&b[..n]);
}

fn h_m06_decode_named() {
    let b = bytes::<8>();
    let n = 2 + choice(7);
    both::<Named>(&b[..n]);
}

fn h_m06_decode_list() {
    let b = bytes::<8>();
    let n = 2 + choice(7);
    both::<List<u8>>(&b[..n]);
}

fn h_m06_decode_converted() {
    let b = bytes::<8>();
    let n = 2 + choice(7);
    both::<Converted>(&b[..n]);
}

fn h_m06_decode_try() {
    let b = bytes::<8>();
    let n = 2 + choice(7);
    both::<Tried>(&b[..n]);
}

#[derive(Serialize)]
#[bsn1_serde(transparent)]
struct Wrap<T: ser::Serialize> {
    x: Quiet<T>,
}

fn h_m06_quiet() {
    let w = Wrap { x: Quiet::any(u16()) };
    written(&w, &encoding(&w.x));
    as_inner(&w, &w.x);
    // Different fields in the two directions.
    let s = Split { out: u8(), inn: bool() };
    written(&s, &encoding(&s.out));
    let b = bool();
    let e = match to_der(&b) {
        Ok(e) => e,
        Err(_) => fail("serialization failed"),
    };
    match from_der::<Split>(&e) {
        Ok(s) => check((s.out == 7) & (s.inn == b), "decoded fields"),
        Err(_) => fail("refused"),
    }
    match from_ber::<Split>(&bsn1::Ber::from(e)) {
        Ok(s) => check((s.out == 7) & (s.inn == b), "decoded fields from BER"),
        Err(_) => fail("refused as BER"),
    }
}

#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 5000)]
struct Far(u8, u16);
model_struct!([] Far, [0xbf, 0xa7, 0x08], Far { 0: u8, 1: u16 });

impl From<Plus> for Far {
    fn from(x: Plus) -> Far {
        Far(x.0, 300)
    }
}

/// The two directions differ in the field, its identifier and its conversion.
#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Apart {
    #[bsn1_serde(skip_serializing)]
    inn: bool,
    #[bsn1_serde(skip_deserializing, default = "far")]
    out: Far,
}

/// One direction only.
#[derive(PartialEq, Serialize)]
#[bsn1_serde(transparent)]
struct Turned {
    #[bsn1_serde(skip_serializing)]
    inn: bool,
    #[bsn1_serde(into = "Far")]
    out: Plus,
}

#[derive(PartialEq, Serialize)]
#[bsn1_serde(transparent)]
struct Called(#[bsn1_serde(skip_serializing)] Far, #[bsn1_serde(to = "called")] Plus);

#[derive(PartialEq, Deserialize)]
#[bsn1_serde(transparent)]
struct Taken(#[bsn1_serde(skip_deserializing, default = "far")] Far, #[bsn1_serde(from = "u8")] Plus);

fn far() -> Far {
    Far(1, 2)
}

fn called(p: &Plus) -> bool {
    p.0 & 1 == 1
}

fn read<T: de::Deserialize>(e: &[u8]) -> T {
    let mut r = e;
    let v = if choice(2) == 0 { parse_der(&mut r) } else { parse_ber(&mut r) };
    match v {
        Ok(v) => v,
        Err(_) => fail("refused"),
    }
}

fn h_m06_apart() {
    let (x, y, b) = (u8(), u16() & 0x7f, bool());
    match choice(5) {
        0 => {
            let v = Apart { inn: b, out: Far(x, y) };
            written(&v, &encoding(&v.out));
            as_inner(&v, &v.out);
        }
        1 => check(read::<Apart>(&encoding(&b)) == Apart { inn: b, out: far() }, "decoded fields"),
        2 => written(&Turned { inn: b, out: Plus(x) }, &encoding(&Far(x, 300))),
        3 => written(&Called(Far(x, y), Plus(x)), &encoding(&(x & 1 == 1))),
        _ => check(read::<Taken>(&encoding(&x)) == Taken(far(), Plus(x ^ 0x33)), "converted field"),
    }
    cover("apart");
}

fn h_m06_indefinite() {
    forms(&List(vec![List(vec![u8()])]));
}
