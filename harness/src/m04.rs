//! Skipped fields.

use crate::model::*;
use crate::untouched;
use crate::spec;
use crate::sym::*;
use bsn1_serde::{Deserialize, Serialize};

entries!(
    h_m04_skip, h_m04_serializing, h_m04_deserializing, h_m04_tuple, h_m04_enum, h_m04_all, h_m04_decode_skip,
    h_m04_decode_serializing, h_m04_decode_deserializing, h_m04_decode_tuple, h_m04_decode_enum, h_m04_decode_all,
    h_m04_long, h_m04_indefinite, h_m04_nested
);

fn seven() -> u8 {
    7
}

/// Never encoded nor decoded itself.
#[derive(PartialEq)]
struct Foreign(u8);
untouched!([] Foreign);

impl Default for Foreign {
    fn default() -> Self {
        Foreign(42)
    }
}

impl Foreign {
    fn made() -> Self {
        Foreign(43)
    }
}

/// First, middle and last.
#[derive(PartialEq, Serialize, Deserialize)]
struct Skip {
    #[bsn1_serde(skip)]
    a: Foreign,
    b: u8,
    #[bsn1_serde(skip, default = "seven")]
    c: u8,
    d: bool,
    #[bsn1_serde(skip, default = "Foreign::made")]
    e: Foreign,
}

impl Model for Skip {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        self.b.put(&mut c);
        self.d.put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let b = field(ber, &mut c)?;
        let d = field(ber, &mut c)?;
        finish(c)?;
        Ok(Skip { a: Foreign(42), b, c: 7, d, e: Foreign(43) })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
struct NotOut {
    a: u8,
    #[bsn1_serde(skip_serializing)]
    b: u8,
    c: bool,
}

impl Model for NotOut {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        self.a.put(&mut c);
        self.c.put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let a = field(ber, &mut c)?;
        let b = field(ber, &mut c)?;
        let d = field(ber, &mut c)?;
        finish(c)?;
        Ok(NotOut { a, b, c: d })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
struct NotIn {
    #[bsn1_serde(skip_deserializing, default = "seven")]
    a: u8,
    b: u8,
    #[bsn1_serde(skip_deserializing)]
    c: bool,
}

impl Model for NotIn {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        self.a.put(&mut c);
        self.b.put(&mut c);
        self.c.put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let b = field(ber, &mut c)?;
        finish(c)?;
        Ok(NotIn { a: 7, b, c: false })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
struct Tuple(
    u8,
    #[bsn1_serde(skip_serializing, skip_deserializing, default = "seven")] u8,
    bool,
    #[bsn1_serde(skip)] Foreign,
);

impl Model for Tuple {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        self.0.put(&mut c);
        self.2.put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let a = field(ber, &mut c)?;
        let b = field(ber, &mut c)?;
        finish(c)?;
        Ok(Tuple(a, 7, b, Foreign(42)))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
enum E {
    A(#[bsn1_serde(skip)] Foreign, u8, #[bsn1_serde(skip, default = "seven")] u8),
    #[bsn1_serde(id = Set)]
    B {
        x: u8,
        #[bsn1_serde(skip_serializing)]
        y: u8,
        #[bsn1_serde(skip_deserializing, default = "seven")]
        z: u8,
        #[bsn1_serde(skip_deserializing)]
        w: bool,
    },
    #[bsn1_serde(tag_class = PRIVATE)]
    C(#[bsn1_serde(skip)] Foreign),
}

impl Model for E {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        let id = match self {
            E::A(_, b, _) => {
                b.put(&mut c);
                0x30
            }
            E::B { x, z, w, .. } => {
                x.put(&mut c);
                z.put(&mut c);
                w.put(&mut c);
                0x31
            }
            E::C(_) => 0xf0,
        };
        put_raw(&[id], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        let mut c = e.contents;
        if e.id == [0x30] {
            let b = field(ber, &mut c)?;
            finish(c)?;
            Ok(E::A(Foreign(42), b, 7))
        } else if e.id == [0x31] {
            let x = field(ber, &mut c)?;
            let y = field(ber, &mut c)?;
            finish(c)?;
            Ok(E::B { x, y, z: 7, w: false })
        } else if e.id == [0xf0] {
            finish(c)?;
            Ok(E::C(Foreign(42)))
        } else {
            Err(spec::UNMATCHED)
        }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

#[derive(PartialEq, Serialize, Deserialize)]
struct Nothing {
    #[bsn1_serde(skip)]
    a: u8,
    #[bsn1_serde(skip, default = "Foreign::made")]
    b: Foreign,
}

impl Model for Nothing {
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&[0x30, 0]);
    }
    fn get(_: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        finish(e.contents)?;
        Ok(Nothing { a: 0, b: Foreign(43) })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// Sizes that matter, skipped and not.
#[derive(PartialEq, Serialize, Deserialize)]
struct Long {
    #[bsn1_serde(skip_serializing)]
    a: String,
    b: String,
    #[bsn1_serde(skip)]
    c: Vec<u8>,
    #[bsn1_serde(skip_deserializing)]
    d: String,
}

impl Model for Long {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        self.b.put(&mut c);
        self.d.put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let a = field(ber, &mut c)?;
        let b = field(ber, &mut c)?;
        finish(c)?;
        Ok(Long { a, b, c: vec![], d: String::new() })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

fn out_of<T: Model + bsn1_serde::ser::Serialize>(v: &T) {
    written(v, &encoding(v));
}

fn h_m04_skip() {
    out_of(&Skip { a: Foreign(u8()), b: u8(), c: u8(), d: bool(), e: Foreign(u8()) });
}

fn h_m04_serializing() {
    out_of(&NotOut { a: u8(), b: u8(), c: bool() });
}

fn h_m04_deserializing() {
    out_of(&NotIn { a: u8(), b: u8(), c: bool() });
}

fn h_m04_tuple() {
    out_of(&Tuple(u8(), u8(), bool(), Foreign(u8())));
}

fn h_m04_enum() {
    match choice(3) {
        0 => out_of(&E::A(Foreign(u8()), u8(), u8())),
        1 => out_of(&E::B { x: u8(), y: u8(), z: u8(), w: bool() }),
        _ => out_of(&E::C(Foreign(u8()))),
    }
}

fn h_m04_all() {
    out_of(&Nothing { a: u8(), b: Foreign(u8()) });
}

fn h_m04_decode_skip() {
    both::<Skip>(&under::<10>(&[0x30]));
}

fn h_m04_decode_serializing() {
    both::<NotOut>(&under::<11>(&[0x30]));
}

fn h_m04_decode_deserializing() {
    both::<NotIn>(&under::<9>(&[0x30]));
}

fn h_m04_decode_tuple() {
    both::<Tuple>(&under::<10>(&[0x30]));
}

fn h_m04_decode_enum() {
    both::<E>(&under::<9>(&[[0x30, 0x31, 0xf0][choice(3)]]));
}

fn h_m04_decode_all() {
    both::<Nothing>(&under::<6>(&[0x30]));
}

/// Around the sizes where the length needs more octets.
fn h_m04_long() {
    let n = [0, 120, 121, 122, 123, 124, 125, 126, 127, 128, 250, 251, 252, 253, 254][choice(15)];
    let (skipped, two) = ([0, 130][choice(2)], choice(2));
    let t = text(n);
    out_of(&Long { a: text(skipped), b: t.clone(), c: vec![0; skipped], d: if two == 1 { t } else { String::new() } });
}

/// Any contents under the indefinite length.
fn h_m04_indefinite() {
    match choice(4) {
        0 => both::<Skip>(&indefinite::<7>(&[0x30])),
        1 => both::<NotIn>(&indefinite::<7>(&[0x30])),
        2 => both::<E>(&indefinite::<7>(&[[0x30, 0x31, 0xf0][choice(3)]])),
        _ => both::<Nothing>(&indefinite::<5>(&[0x30])),
    }
}

/// As members, where their sizes are needed.
fn h_m04_nested() {
    let v = vec![NotIn { a: u8(), b: u8(), c: bool() }];
    out_of(&v);
    let mut m = std::collections::BTreeMap::new();
    m.insert(1u8, E::A(Foreign(u8()), u8(), u8()));
    out_of(&m);
    out_of(&vec![NotOut { a: u8(), b: u8(), c: bool() }]);
}
