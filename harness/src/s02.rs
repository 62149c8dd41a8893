//! Announced and written sizes.

use crate::model::*;
use crate::sym::*;
use bsn1_serde::{OctetString, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

entries!(
    h_s02_list, h_s02_quiet, h_s02_ordered_map, h_s02_hash_map, h_s02_hash_set, h_s02_struct, h_s02_enum, h_s02_long,
    h_s02_huge, h_s02_nested, h_s02_bare, h_s02_many
);

fn len<T>(v: &[T]) -> usize {
    choice(v.len() + 1)
}

fn h_s02_list() {
    let x = [u16(), u16(), u16()];
    let n = len(&x);
    match choice(4) {
        0 => check_all(&x[..n].to_vec()),
        1 => check_all(&x[..n].iter().copied().collect::<LinkedList<_>>()),
        2 => {
            // A queue whose ring buffer has wrapped around.
            let mut q = VecDeque::with_capacity(4);
            for _ in 0..3 {
                q.push_back(0);
            }
            for o in &x[..n] {
                q.pop_front();
                q.push_back(*o);
            }
            while q.len() > n {
                q.pop_front();
            }
            check_all(&q)
        }
        _ => check_all(&x[..n].iter().copied().collect::<BTreeSet<_>>()),
    }
}

fn check_all<T: Model + bsn1_serde::ser::Serialize>(v: &T) {
    written(v, &encoding(v));
}

/// Members that announce none, one or both of their sizes.
fn h_s02_quiet() {
    let x = [u16(), u16()];
    let v = vec![Quiet::any(x[0]), Quiet::any(x[1])];
    check_all(&v);
    check_all(&Quiet::any(v));
}

fn h_s02_ordered_map() {
    let mut m = BTreeMap::new();
    let n = choice(3);
    for i in 0..n {
        m.insert(Quiet::any(i as u8), Quiet::any(u16()));
    }
    check_all(&m);
}

fn h_s02_hash_map() {
    let mut m = HashMap::new();
    let n = choice(3);
    for i in 0..n {
        m.insert(Quiet::any(i as u8), Quiet::any(u16()));
    }
    check_all(&m);
}

fn h_s02_hash_set() {
    let mut m = HashSet::new();
    let n = choice(4);
    for i in 0..n {
        m.insert(Quiet::any(100 * i as u16));
    }
    check_all(&m);
}

#[derive(Serialize)]
struct S {
    a: Quiet<u16>,
    b: Quiet<bool>,
    c: Vec<Quiet<u8>>,
}

fn put_s(s: &S, out: &mut Vec<u8>) {
    s.a.put(out);
    s.b.put(out);
    s.c.put(out);
}

fn h_s02_struct() {
    let s = S { a: Quiet::any(u16()), b: Quiet::any(bool()), c: vec![Quiet::any(u8())] };
    let mut c = Vec::new();
    put_s(&s, &mut c);
    let mut want = Vec::new();
    put_raw(&[0x30], &c, &mut want);
    written(&s, &want);
}

#[derive(Serialize)]
enum E {
    Unit,
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 300)]
    Tuple(Quiet<u16>, bool),
    #[bsn1_serde(id = Set)]
    Named { a: Quiet<u8>, s: S },
}

fn h_s02_enum() {
    let mut c = Vec::new();
    let mut want = Vec::new();
    match choice(3) {
        0 => {
            put_raw(&[0x30], &c, &mut want);
            written(&E::Unit, &want);
        }
        1 => {
            let (a, b) = (Quiet::any(u16()), bool());
            a.put(&mut c);
            b.put(&mut c);
            put_raw(&[0xff, 0x82, 0x2c], &c, &mut want);
            written(&E::Tuple(a, b), &want);
        }
        _ => {
            let a = Quiet::any(u8());
            let s = S { a: Quiet::any(u16()), b: Quiet { v: bool(), id: false, contents: false }, c: Vec::new() };
            a.put(&mut c);
            let mut d = Vec::new();
            put_s(&s, &mut d);
            put_raw(&[0x30], &d, &mut c);
            put_raw(&[0x31], &c, &mut want);
            written(&E::Named { a, s }, &want);
        }
    }
}

/// Contents on both sides of 127/128 and 255/256 octets at two levels.
fn h_s02_long() {
    let n = [120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 249, 250, 251, 252, 253, 254, 255, 256, 257][choice(19)];
    let t = Quiet::any(text(n));
    match choice(5) {
        0 => check_all(&vec![t]),
        1 => {
            let mut m = BTreeMap::new();
            m.insert(7u8, t);
            check_all(&m)
        }
        2 => {
            let mut m = HashMap::new();
            m.insert(7u8, t);
            check_all(&m)
        }
        3 => {
            let mut m = BTreeMap::new();
            m.insert(OctetString::from(t.v.clone().into_bytes()), 1u8);
            check_all(&m)
        }
        _ => {
            let e = W { a: u8(), t };
            let mut c = Vec::new();
            e.a.put(&mut c);
            e.t.put(&mut c);
            let mut want = Vec::new();
            put_raw(&[0x30], &c, &mut want);
            written(&e, &want);
        }
    }
}

/// The boundary between two and three octets of length.
fn h_s02_huge() {
    alloc_limit(300000);
    let n = [65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65535, 65536][choice(10)];
    let t = OctetString::from(vec![b'a'; n]);
    let t = Quiet { v: t, id: true, contents: choice(2) == 1 };
    match choice(4) {
        0 => check_all(&t),
        1 => check_all(&vec![t]),
        2 => {
            let mut m = BTreeMap::new();
            m.insert(7u8, t);
            check_all(&m)
        }
        _ => {
            let mut m = HashMap::new();
            m.insert(7u8, t);
            check_all(&m)
        }
    }
}

#[derive(Serialize)]
struct W {
    a: u8,
    t: Quiet<String>,
}

fn h_s02_nested() {
    let v = vec![Quiet::any(vec![u16(), u16()]), Quiet::any(Vec::new())];
    check_all(&v);
    let mut m = BTreeMap::new();
    m.insert(u8(), Quiet::any(vec![bool()]));
    let mut o = BTreeMap::new();
    o.insert(1u8, m);
    check_all(&o);
}

/// Only what has to be implemented.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Bare<T>(T);

impl<T: bsn1_serde::ser::Serialize> bsn1_serde::ser::Serialize for Bare<T> {
    fn write_id<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), bsn1::Error> {
        self.0.write_id(w)
    }
    fn write_der_contents<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), bsn1::Error> {
        self.0.write_der_contents(w)
    }
}

impl<T: Model> Model for Bare<T> {
    fn put(&self, out: &mut Vec<u8>) {
        self.0.put(out)
    }
    fn get(_: bool, _: El) -> Result<Self, u8> {
        fail("harness: not decoded")
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}

#[derive(Serialize)]
struct BareFields(u8, Bare<u16>);

fn h_s02_bare() {
    let (x, y) = (u16(), u8());
    match choice(5) {
        0 => check_all(&Bare(x)),
        1 => check_all(&vec![Bare(x), Bare(3)]),
        2 => check_all(&[(Bare(y), Bare(x))].into_iter().collect::<BTreeMap<_, _>>()),
        3 => check_all(&Bare(text([0, 23, 127, 128][choice(4)]))),
        _ => {
            let mut c = encoding(&y);
            x.put(&mut c);
            written(&BareFields(y, Bare(x)), &crate::spec::element(&[0x30], &c));
        }
    }
}

/// Many members: 3 octets each, 8 in a map.
fn h_s02_many() {
    let n = [15, 16, 31, 32, 42, 43, 85, 86][choice(8)];
    let x = u8() & 0x7f;
    let key = |i: usize| (i * 37 % 127) as u8;
    match choice(7) {
        0 => check_all(&(0..n).map(|i| if i == 9 { x } else { key(i) }).collect::<Vec<_>>()),
        1 => check_all(&(0..n).map(|i| if i == 9 { x } else { key(i) }).collect::<LinkedList<_>>()),
        2 => check_all(&(0..n).map(|i| if i == 9 { x } else { key(i) }).collect::<VecDeque<_>>()),
        3 => check_all(&(0..n).map(key).collect::<BTreeSet<_>>()),
        4 => check_all(&(0..n).map(|i| Quiet { v: key(i), id: i == 3, contents: i == 12 }).collect::<Vec<_>>()),
        5 => check_all(&(0..n).map(|i| (key(i), x)).collect::<BTreeMap<_, _>>()),
        _ => check_all(&(0..n).map(|i| (key(i), x)).collect::<HashMap<_, _>>()),
    }
}
