//! Conversion attributes.

use crate::model::*;
use crate::{model_struct, untouched};
use crate::spec;
use crate::sym::*;
use bsn1_serde::{Deserialize, OctetString, Serialize};

entries!(
    h_m05_from_into, h_m05_to_try, h_m05_enum, h_m05_enum_to, h_m05_field, h_m05_field_tuple, h_m05_variant, h_m05_text,
    h_m05_decode_from, h_m05_decode_try, h_m05_decode_enum, h_m05_decode_enum_to, h_m05_decode_field,
    h_m05_decode_tuple, h_m05_decode_variant, h_m05_decode_text, h_m05_nested, h_m05_long, h_m05_long_variant, h_m05_long_type,
    h_m05_tagged, h_m05_decode_tagged, h_m05_generic, h_m05_decode_generic, h_m05_indefinite, h_m05_decode_indefinite
);

/// Through u16 and back.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[bsn1_serde(into = "u16", from = "u16")]
struct Halves {
    hi: u8,
    lo: u8,
}

impl From<u16> for Halves {
    fn from(x: u16) -> Self {
        Halves { hi: (x >> 8) as u8, lo: x as u8 }
    }
}

impl From<Halves> for u16 {
    fn from(h: Halves) -> Self {
        (h.hi as u16) << 8 | h.lo as u16
    }
}

impl Model for Halves {
    fn put(&self, out: &mut Vec<u8>) {
        ((self.hi as u16) << 8 | self.lo as u16).put(out)
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        u16::get(ber, e).map(|x| Halves { hi: (x >> 8) as u8, lo: x as u8 })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// Only even numbers.
#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(to = "Even::half", try_from = "i16")]
struct Even(i16);

impl Even {
    fn half(&self) -> i16 {
        self.0
    }
}

impl TryFrom<i16> for Even {
    type Error = Odd;
    fn try_from(x: i16) -> Result<Self, Odd> {
        if x & 1 == 0 {
            Ok(Even(x))
        } else {
            Err(Odd(x as u8))
        }
    }
}

impl Model for Even {
    fn put(&self, out: &mut Vec<u8>) {
        self.0.put(out)
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        let x = i16::get(ber, e)?;
        if x & 1 == 0 {
            Ok(Even(x))
        } else {
            Err(CONVERSION)
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// An enum as an integer.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[bsn1_serde(into = "u8", try_from = "u8")]
enum Light {
    Red,
    Green { x: bool },
}

impl From<Light> for u8 {
    fn from(l: Light) -> u8 {
        match l {
            Light::Red => 200,
            Light::Green { x } => 5 + x as u8,
        }
    }
}

impl TryFrom<u8> for Light {
    type Error = Odd;
    fn try_from(x: u8) -> Result<Self, Odd> {
        match x {
            200 => Ok(Light::Red),
            5 => Ok(Light::Green { x: false }),
            6 => Ok(Light::Green { x: true }),
            _ => Err(Odd(x)),
        }
    }
}

impl Model for Light {
    fn put(&self, out: &mut Vec<u8>) {
        u8::from(self.clone()).put(out)
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        Light::try_from(u8::get(ber, e)?).map_err(|_| CONVERSION)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// An enum as a list.
#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(to = "Count::list", from = "Vec<bool>")]
enum Count {
    None,
    Some(bool),
}

impl Count {
    fn list(&self) -> Vec<bool> {
        match self {
            Count::None => vec![],
            Count::Some(b) => vec![*b],
        }
    }
}

impl From<Vec<bool>> for Count {
    fn from(v: Vec<bool>) -> Self {
        match v.first() {
            None => Count::None,
            Some(b) => Count::Some(*b),
        }
    }
}

impl Model for Count {
    fn put(&self, out: &mut Vec<u8>) {
        self.list().put(out)
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        Vec::<bool>::get(ber, e).map(Count::from)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// No trait of the crate; converted field by field.
#[derive(Clone, PartialEq)]
struct Foreign(u8);
untouched!([] Foreign, [] Words);

impl From<u8> for Foreign {
    fn from(x: u8) -> Self {
        Foreign(x ^ 0x55)
    }
}

impl From<Foreign> for u8 {
    fn from(f: Foreign) -> u8 {
        f.0 ^ 0x55
    }
}

fn to_i8(f: &Foreign) -> i8 {
    (f.0 ^ 0x55) as i8
}

impl TryFrom<i8> for Foreign {
    type Error = Odd;
    fn try_from(x: i8) -> Result<Self, Odd> {
        if x & 1 == 0 {
            Ok(Foreign(x as u8 ^ 0x55))
        } else {
            Err(Odd(x as u8))
        }
    }
}

fn odd(x: i8) -> Result<Foreign, u8> {
    Foreign::try_from(x).map_err(|_| CONVERSION)
}

#[derive(PartialEq, Serialize, Deserialize)]
struct Fields {
    #[bsn1_serde(into = "u8", from = "u8")]
    a: Foreign,
    n: bool,
    #[bsn1_serde(to = "to_i8", try_from = "i8")]
    b: Foreign,
}

impl Model for Fields {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        (self.a.0 ^ 0x55).put(&mut c);
        self.n.put(&mut c);
        to_i8(&self.b).put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let a = field::<u8>(ber, &mut c)?;
        let n = field(ber, &mut c)?;
        let b = odd(field(ber, &mut c)?)?;
        finish(c)?;
        Ok(Fields { a: Foreign(a ^ 0x55), n, b })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
struct Tuple(
    #[bsn1_serde(to = "to_i8", try_from = "i8")] Foreign,
    #[bsn1_serde(into = "u8", from = "u8")] Foreign,
);

impl Model for Tuple {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        to_i8(&self.0).put(&mut c);
        (self.1 .0 ^ 0x55).put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let a = odd(field(ber, &mut c)?)?;
        let b = field::<u8>(ber, &mut c)?;
        finish(c)?;
        Ok(Tuple(a, Foreign(b ^ 0x55)))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
enum Variant {
    #[bsn1_serde(id = Set)]
    A(#[bsn1_serde(into = "u8", from = "u8")] Foreign),
    B {
        #[bsn1_serde(to = "to_i8", try_from = "i8")]
        x: Foreign,
        y: u8,
    },
}

impl Model for Variant {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        let id = match self {
            Variant::A(f) => {
                (f.0 ^ 0x55).put(&mut c);
                0x31
            }
            Variant::B { x, y } => {
                to_i8(x).put(&mut c);
                y.put(&mut c);
                0x30
            }
        };
        put_raw(&[id], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        let mut c = e.contents;
        if e.id == [0x31] {
            let f = field::<u8>(ber, &mut c)?;
            finish(c)?;
            Ok(Variant::A(Foreign(f ^ 0x55)))
        } else if e.id == [0x30] {
            let x = odd(field(ber, &mut c)?)?;
            let y = field(ber, &mut c)?;
            finish(c)?;
            Ok(Variant::B { x, y })
        } else {
            Err(spec::UNMATCHED)
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// The conversion of the documentation.
#[derive(PartialEq, Serialize, Deserialize)]
struct Text(#[bsn1_serde(to = "OctetString::new", try_from = "OctetString")] String);

impl Model for Text {
    fn put(&self, out: &mut Vec<u8>) {
        put_raw(&[0x30], &spec::element(&[4], self.0.as_bytes()), out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let o = field::<OctetString<'static>>(ber, &mut c)?.into_vec();
        if !utf8(&o) {
            return Err(spec::WRAPPED);
        }
        finish(c)?;
        Ok(Text(unsafe { String::from_utf8_unchecked(o) }))
    }
    fn same(&self, o: &Self) -> bool {
        self.0.as_bytes() == o.0.as_bytes()
    }
}

/// A text by another name, of any size.
#[derive(Clone, PartialEq)]
struct Words(String);

impl From<String> for Words {
    fn from(s: String) -> Self {
        Words(s)
    }
}

impl From<Words> for String {
    fn from(w: Words) -> String {
        w.0
    }
}

fn words(w: &Words) -> String {
    w.0.clone()
}

#[derive(PartialEq, Serialize, Deserialize)]
struct Long {
    a: u8,
    #[bsn1_serde(into = "String", from = "String")]
    b: Words,
    #[bsn1_serde(to = "words", from = "String")]
    c: Words,
    d: bool,
}

impl Model for Long {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        self.a.put(&mut c);
        self.b.0.put(&mut c);
        self.c.0.put(&mut c);
        self.d.put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let v = Long { a: field(ber, &mut c)?, b: Words(field(ber, &mut c)?), c: Words(field(ber, &mut c)?), d: field(ber, &mut c)? };
        finish(c)?;
        Ok(v)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
enum LongVariant {
    A(#[bsn1_serde(into = "String", from = "String")] Words, u8),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 0x4000)]
    B {
        x: u8,
        #[bsn1_serde(to = "words", from = "String")]
        y: Words,
    },
}

impl Model for LongVariant {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        match self {
            LongVariant::A(w, n) => {
                w.0.put(&mut c);
                n.put(&mut c);
                put_raw(&[0x30], &c, out);
            }
            LongVariant::B { x, y } => {
                x.put(&mut c);
                y.0.put(&mut c);
                put_raw(&[0xff, 0x81, 0x80, 0], &c, out);
            }
        }
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        let mut c = e.contents;
        let v = if e.id == [0x30] {
            LongVariant::A(Words(field(ber, &mut c)?), field(ber, &mut c)?)
        } else if e.id == [0xff, 0x81, 0x80, 0] {
            LongVariant::B { x: field(ber, &mut c)?, y: Words(field(ber, &mut c)?) }
        } else {
            return Err(spec::UNMATCHED);
        };
        finish(c)?;
        Ok(v)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[bsn1_serde(into = "String", from = "String")]
struct LongType(u8, String);

impl From<String> for LongType {
    fn from(s: String) -> Self {
        LongType(1, s)
    }
}

impl From<LongType> for String {
    fn from(w: LongType) -> String {
        w.1
    }
}

impl Model for LongType {
    fn put(&self, out: &mut Vec<u8>) {
        self.1.put(out)
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        String::get(ber, e).map(|s| LongType(1, s))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// Converted to something with an identifier of its own.
#[derive(PartialEq, Serialize, Deserialize)]
#[bsn1_serde(tag_class = APPLICATION, tag_num = 300)]
struct Target(u8);
model_struct!([] Target, [0x7f, 0x82, 0x2c], Target { 0: u8 });

impl From<Foreign> for Target {
    fn from(f: Foreign) -> Self {
        Target(f.0)
    }
}

impl From<Target> for Foreign {
    fn from(t: Target) -> Self {
        Foreign(t.0)
    }
}

fn target(f: &Foreign) -> Target {
    Target(f.0)
}

#[derive(PartialEq, Serialize, Deserialize)]
struct Tagged {
    #[bsn1_serde(into = "Target", from = "Target")]
    a: Foreign,
    #[bsn1_serde(to = "target", from = "Target")]
    b: Foreign,
}

impl Model for Tagged {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        target(&self.a).put(&mut c);
        target(&self.b).put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let a = field::<Target>(ber, &mut c)?;
        let b = field::<Target>(ber, &mut c)?;
        finish(c)?;
        Ok(Tagged { a: Foreign(a.0), b: Foreign(b.0) })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// A conversion that names a parameter.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[bsn1_serde(into = "Vec<T>", from = "Vec<T>")]
struct Backwards<T>
where
    T: Clone + bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize,
{
    v: Vec<T>,
}

impl<T: Clone + bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize> From<Vec<T>> for Backwards<T> {
    fn from(mut v: Vec<T>) -> Self {
        v.reverse();
        Backwards { v }
    }
}

impl<T: Clone + bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize> From<Backwards<T>> for Vec<T> {
    fn from(mut b: Backwards<T>) -> Self {
        b.v.reverse();
        b.v
    }
}

impl Model for Backwards<bool> {
    fn put(&self, out: &mut Vec<u8>) {
        let mut v = self.v.clone();
        v.reverse();
        v.put(out)
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        let mut v = Vec::<bool>::get(ber, e)?;
        v.reverse();
        Ok(Backwards { v })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

fn h_m05_from_into() {
    value(&Halves { hi: u8(), lo: u8() });
}

fn even() -> u8 {
    u8() & 0xfe
}

fn h_m05_to_try() {
    value(&Even(u16() as i16 & !1));
}

fn h_m05_enum() {
    if choice(2) == 0 {
        value(&Light::Red);
    } else {
        value(&Light::Green { x: bool() });
    }
}

fn h_m05_enum_to() {
    if choice(2) == 0 {
        value(&Count::None);
    } else {
        value(&Count::Some(bool()));
    }
}

fn h_m05_field() {
    value(&Fields { a: Foreign(u8()), n: bool(), b: Foreign(even() ^ 0x55) });
}

fn h_m05_field_tuple() {
    value(&Tuple(Foreign(even() ^ 0x55), Foreign(u8())));
}

fn h_m05_variant() {
    if choice(2) == 0 {
        value(&Variant::A(Foreign(u8())));
    } else {
        value(&Variant::B { x: Foreign(even() ^ 0x55), y: u8() });
    }
}

fn h_m05_text() {
    let n = [0, 3, 123, 124, 125, 126, 127, 128][choice(8)];
    value(&Text(text(n)));
}

fn h_m05_decode_from() {
    both::<Halves>(&under::<7>(&[2]));
}

fn h_m05_decode_try() {
    both::<Even>(&under::<6>(&[[2, 3][choice(2)]]));
}

fn h_m05_decode_enum() {
    both::<Light>(&under::<6>(&[2]));
}

fn h_m05_decode_enum_to() {
    both::<Count>(&under::<10>(&[0x30]));
}

fn h_m05_decode_field() {
    both::<Fields>(&under::<10>(&[0x30]));
}

fn h_m05_decode_tuple() {
    both::<Tuple>(&under::<10>(&[0x30]));
}

fn h_m05_decode_variant() {
    both::<Variant>(&under::<10>(&[[0x30, 0x31][choice(2)]]));
}

fn h_m05_decode_text() {
    both::<Text>(&under::<8>(&[0x30]));
}

/// Converted types as members, where their sizes are needed.
fn h_m05_nested() {
    value(&vec![Halves { hi: u8(), lo: u8() }]);
    let mut m = std::collections::BTreeMap::new();
    m.insert(1u8, Even(u16() as i16 & !1));
    value(&m);
    value(&vec![Variant::A(Foreign(u8()))]);
}

const SIZES: [usize; 8] = [0, 3, 120, 126, 127, 128, 255, 256];

/// Converted fields around the sizes where the length needs more octets.
fn h_m05_long() {
    let (b, c) = (SIZES[choice(8)], [0, 5, 128, 256][choice(4)]);
    let v = Long { a: u8(), b: Words(text(b)), c: Words(text(c)), d: bool() };
    value(&v);
    value(&vec![v]);
}

fn h_m05_long_variant() {
    let n = SIZES[choice(8)];
    if choice(2) == 0 {
        value(&LongVariant::A(Words(text(n)), u8()));
    } else {
        value(&LongVariant::B { x: u8(), y: Words(text(n)) });
    }
}

fn h_m05_long_type() {
    let v = LongType(1, text(SIZES[choice(8)]));
    value(&v);
    let mut m = std::collections::BTreeMap::new();
    m.insert(u8(), v.clone());
    value(&m);
    value(&vec![v.clone(), v]);
}

fn h_m05_tagged() {
    let v = Tagged { a: Foreign(u8()), b: Foreign(u8()) };
    value(&v);
    value(&vec![v]);
}

fn h_m05_decode_tagged() {
    let b = bytes::<3>();
    let mut c = spec::element(&[0x7f, 0x82, 0x2c], &b);
    let d = bytes::<7>();
    c.extend_from_slice(&d[..choice(8)]);
    both::<Tagged>(&spec::element(&[0x30], &c));
}

fn h_m05_generic() {
    let n = choice(4);
    value(&Backwards { v: [bool(), bool(), bool()][..n].to_vec() });
}

fn h_m05_decode_generic() {
    both::<Backwards<bool>>(&under::<9>(&[0x30]));
}

fn h_m05_indefinite() {
    match choice(4) {
        0 => forms(&Fields { a: Foreign(u8()), n: bool(), b: Foreign(even() ^ 0x55) }),
        1 => forms(&Tagged { a: Foreign(u8()), b: Foreign(u8()) }),
        2 => forms(&Variant::B { x: Foreign(even() ^ 0x55), y: u8() }),
        _ => forms(&Backwards { v: vec![bool(), bool()] }),
    }
}

/// Any contents under the indefinite length.
fn h_m05_decode_indefinite() {
    match choice(5) {
        0 => both::<Fields>(&indefinite::<9>(&[0x30])),
        1 => both::<Variant>(&indefinite::<7>(&[[0x30, 0x31][choice(2)]])),
        2 => both::<Halves>(&indefinite::<4>(&[2])),
        3 => both::<Text>(&indefinite::<6>(&[0x30])),
        _ => both::<Backwards<bool>>(&indefinite::<7>(&[0x30])),
    }
}
