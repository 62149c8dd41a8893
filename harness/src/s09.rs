//! Definite and indefinite lengths of composites.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1_serde::{Deserialize, OctetString, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

entries!(
    h_s09_list, h_s09_set, h_s09_ordered_map, h_s09_hash_map, h_s09_hash_set, h_s09_struct, h_s09_enum, h_s09_nested,
    h_s09_zeros, h_s09_deep, h_s09_long
);

fn h_s09_list() {
    let x = [u8(), u8()];
    let n = choice(3);
    match choice(3) {
        0 => forms(&x[..n].to_vec()),
        1 => forms(&x[..n].iter().copied().collect::<LinkedList<_>>()),
        _ => forms(&x[..n].iter().copied().collect::<VecDeque<_>>()),
    }
}

fn h_s09_set() {
    let x = [u8(), u8()];
    let n = choice(3);
    forms(&x[..n].iter().copied().collect::<BTreeSet<_>>());
}

fn h_s09_ordered_map() {
    let mut m = BTreeMap::new();
    let n = choice(3);
    for _ in 0..n {
        m.insert(u8(), bool());
    }
    forms(&m);
}

fn h_s09_hash_map() {
    let mut m = HashMap::new();
    let n = choice(3);
    for i in 0..n {
        m.insert(i as u8, u8());
    }
    forms(&m);
}

fn h_s09_hash_set() {
    let mut m = HashSet::new();
    let n = choice(3);
    for i in 0..n {
        m.insert(200 * i as u16);
    }
    forms(&m);
}

#[derive(Serialize, Deserialize)]
struct S {
    a: u8,
    b: Vec<u8>,
}

impl Model for S {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        self.a.put(&mut c);
        self.b.put(&mut c);
        put_raw(&[0x30], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x30])?;
        let mut c = e.contents;
        let a = field(ber, &mut c)?;
        let b = field(ber, &mut c)?;
        finish(c)?;
        Ok(S { a, b })
    }
    fn same(&self, o: &Self) -> bool {
        self.a.same(&o.a) & self.b.same(&o.b)
    }
}

fn h_s09_struct() {
    let n = choice(3);
    forms(&S { a: u8(), b: vec![u8(), u8()][..n].to_vec() });
}

#[derive(Serialize, Deserialize)]
enum E {
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 40)]
    A(S, bool),
    #[bsn1_serde(id = Set)]
    B { m: BTreeMap<u8, u8> },
    U,
}

impl Model for E {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        let id: &[u8] = match self {
            E::A(s, b) => {
                s.put(&mut c);
                b.put(&mut c);
                &[0x7f, 40]
            }
            E::B { m } => {
                m.put(&mut c);
                &[0x31]
            }
            E::U => &[0x30],
        };
        put_raw(id, &c, out);
    }
    fn get(_: bool, _: El) -> Result<Self, u8> {
        fail("harness: not used")
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (E::A(a, b), E::A(c, d)) => a.same(c) & b.same(d),
            (E::B { m }, E::B { m: n }) => m.same(n),
            (E::U, E::U) => true,
            _ => false,
        }
    }
}

fn h_s09_enum() {
    match choice(3) {
        0 => forms(&E::A(S { a: u8(), b: vec![u8()] }, bool())),
        1 => {
            let mut m = BTreeMap::new();
            m.insert(u8(), u8());
            forms(&E::B { m })
        }
        _ => forms(&E::U),
    }
}

fn h_s09_nested() {
    match choice(3) {
        0 => forms(&vec![vec![u8()], vec![]]),
        1 => {
            let mut m = BTreeMap::new();
            m.insert(1u8, vec![vec![bool()]]);
            forms(&m)
        }
        _ => {
            let mut m = BTreeMap::new();
            m.insert(u8(), S { a: 0, b: vec![u8()] });
            forms(&vec![m])
        }
    }
}

/// Contents that look like end-of-contents octets.
fn h_s09_zeros() {
    let n = choice(4);
    let o = OctetString::from(bytes::<3>()[..n].to_vec());
    match choice(2) {
        0 => forms(&vec![o.clone(), o]),
        _ => {
            let mut m = BTreeMap::new();
            m.insert(0u8, o);
            forms(&m)
        }
    }
    let _ = spec::EXTRA;
}

/// Five levels.
fn h_s09_deep() {
    if choice(2) == 0 {
        let mut m = BTreeMap::new();
        m.insert(true, vec![vec![u8()]]);
        forms(&vec![m]);
    } else {
        forms(&vec![vec![vec![vec![vec![bool()]]]]]);
    }
}

/// Members with long lengths.
fn h_s09_long() {
    let n = [122, 126, 127, 128, 253, 256][choice(6)];
    match choice(3) {
        0 => forms(&vec![text(n)]),
        1 => {
            let mut m = BTreeMap::new();
            m.insert(u8(), OctetString::from(text(n).into_bytes()));
            forms(&m)
        }
        _ => forms(&S { a: 1, b: vec![0; n / 3] }),
    }
}
