//! Maps and hash sets.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::to_der;
use std::collections::{BTreeMap, HashMap, HashSet};

entries!(
    h_s08_ordered, h_s08_ordered_keys, h_s08_hash, h_s08_set, h_s08_decode_ordered, h_s08_decode_pair, h_s08_repeated,
    h_s08_decode_hash, h_s08_decode_set, h_s08_any, h_s08_indefinite, h_s08_indefinite_pair, h_s08_long,
    h_s08_more, h_s08_many, h_s08_decode_many
);

fn h_s08_ordered() {
    let mut m = BTreeMap::new();
    let n = choice(4);
    for _ in 0..n {
        m.insert(u8(), u8());
    }
    value(&m);
}

fn h_s08_ordered_keys() {
    let mut m = BTreeMap::new();
    m.insert(text(3), vec![u8()]);
    m.insert(String::new(), vec![]);
    value(&m);
    let mut m = BTreeMap::new();
    m.insert(bool(), true);
    m.insert(bool(), false);
    value(&m);
}

/// The elements of a SET, each exactly once, in any order.
fn any_order<T: Serialize>(v: &T, want: &[Vec<u8>]) {
    let d = match to_der(v) {
        Ok(d) => d,
        Err(_) => fail("serialization failed"),
    };
    let d: &[u8] = d.as_ref();
    let mut r = d;
    let e = match take(false, &mut r) {
        Ok(e) => e,
        Err(_) => fail("not an element"),
    };
    check(r.is_empty(), "one element");
    check(e.id == [0x31], "a SET");
    let mut size = 0;
    let mut used = vec![false; want.len()];
    let mut c = e.contents;
    for _ in 0..want.len() {
        let before = c;
        if take(false, &mut c).is_err() {
            fail("a member is missing");
        }
        let m = &before[..before.len() - c.len()];
        let mut found = false;
        for i in 0..want.len() {
            if !found && !used[i] && want[i].len() == m.len() && want[i] == m {
                used[i] = true;
                found = true;
            }
        }
        check(found, "a member that was not there");
        size += m.len();
    }
    check(size == e.contents.len(), "no more members");
    cover("any order");
}

fn h_s08_hash() {
    let mut m = HashMap::new();
    let n = choice(4);
    let mut want = Vec::new();
    for i in 0..n {
        let (k, v) = ([3u16, 500, 40000][i], u16());
        m.insert(k, v);
        let mut p = Vec::new();
        put_pair(&k, &v, &mut p);
        want.push(p);
    }
    any_order(&m, &want);
    value(&m);
}

fn h_s08_set() {
    let mut m = HashSet::new();
    let n = choice(4);
    let mut want = Vec::new();
    for i in 0..n {
        let k = [0i32, -129, 70000][i];
        m.insert(k);
        want.push(encoding(&k));
    }
    any_order(&m, &want);
    value(&m);
}

fn both<T: Model + Deserialize>(e: &[u8]) {
    if choice(2) == 0 {
        decode_der::<T>(e);
    } else {
        decode_ber::<T>(e);
    }
}

fn h_s08_decode_ordered() {
    let b = bytes::<9>();
    let n = choice(10);
    both::<BTreeMap<u8, bool>>(&spec::element(&[0x30], &b[..n]));
}

/// One pair with any contents.
fn h_s08_decode_pair() {
    let b = bytes::<8>();
    let n = choice(9);
    let p = spec::element(&[0x30], &b[..n]);
    both::<BTreeMap<i8, u8>>(&spec::element(&[0x30], &p));
}

/// Keys that may be equal.
fn h_s08_repeated() {
    let (a, b, c) = ([u8(), u8()], [u8(), u8()], [u8(), u8()]);
    let mut v = Vec::new();
    for x in [a, b, c] {
        put_pair(&x[0], &x[1], &mut v);
    }
    let e = spec::element(&[0x30], &v);
    both::<BTreeMap<u8, u8>>(&e);
}

/// Hash maps: any values, and any octet of the structure wrong.
fn h_s08_decode_hash() {
    let (a, b) = (u8(), u8());
    assume((a < 0x80) & (b < 0x80));
    let mut v = Vec::new();
    put_pair(&3u8, &a, &mut v);
    put_pair(&[3u8, 4][choice(2)], &b, &mut v);
    let mut e = spec::element(&[0x31], &v);
    let i = choice(e.len() + 1);
    // The keys stay as they are.
    if i < e.len() && i != 6 && i != 14 {
        e[i] = u8();
    }
    both::<HashMap<u8, u8>>(&e);
}

fn h_s08_decode_set() {
    let mut v = vec![2, 1, 3, 2, 1, [3, 5][choice(2)]];
    let i = choice(v.len() + 1);
    if i < v.len() && i != 2 && i != 5 {
        v[i] = u8();
    }
    let id = u8();
    assume(id & 0x1f != 0x1f);
    both::<HashSet<u8>>(&spec::element(&[id], &v));
}

fn h_s08_any() {
    let b = bytes::<7>();
    let n = 2 + choice(6);
    both::<BTreeMap<u8, u8>>(&b[..n]);
}

fn h_s08_long() {
    let n = [118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128][choice(11)];
    if choice(2) == 0 {
        let mut m = BTreeMap::new();
        m.insert(u8(), text(n));
        value(&m);
    } else {
        let mut m = HashMap::new();
        m.insert(9u8, text(n));
        value(&m);
    }
}

/// Any contents under the indefinite length.
fn h_s08_indefinite() {
    both::<BTreeMap<u8, bool>>(&indefinite::<8>(&[0x30]));
}

/// One pair of the indefinite length with any contents.
fn h_s08_indefinite_pair() {
    let p = indefinite::<7>(&[0x30]);
    both::<BTreeMap<i8, u8>>(&spec::element(&[0x30], &p));
}

/// Entries in no order, enough of them for long lengths.
fn mixed(n: usize) -> impl Iterator<Item = u8> {
    (0..n).map(|i| (i * 37 % 127) as u8)
}

fn h_s08_many() {
    let n = [12, 15, 16, 31, 32, 40][choice(6)];
    let (x, y) = (u8() & 0x7f, bool());
    match choice(4) {
        0 => value(&mixed(n).map(|k| (k, if k == 37 { y } else { true })).collect::<BTreeMap<_, _>>()),
        1 => value(&mixed(n).map(|k| (k, if k == 37 { x } else { 3 })).collect::<HashMap<_, _>>()),
        2 => value(&mixed(n).collect::<HashSet<_>>()),
        _ => value(&mixed(n / 4).map(|k| (k, mixed(9).map(|i| (i, y)).collect())).collect::<BTreeMap<_, BTreeMap<_, _>>>()),
    }
}

/// The wrong pair may be far from the first.
fn h_s08_decode_many() {
    let n = [16, 32][choice(2)];
    let mut c = Vec::new();
    for k in mixed(n) {
        c.extend_from_slice(&[0x30, 6, 2, 1, k, 1, 1, 0xff]);
    }
    // Not a key, which would be compared to all others.
    let i = c.len() - 8 * (1 + choice(3)) + [0, 1, 2, 3, 5, 6, 7][choice(7)];
    c[i] = u8();
    both::<BTreeMap<u8, bool>>(&spec::element(&[0x30], &c));
}

/// More entries than 8 bits can count.
fn h_s08_more() {
    alloc_limit(1 << 20);
    let n = [127u16, 128, 255, 256, 257][choice(5)];
    let y = bool();
    match choice(3) {
        0 => value(&(0..n).map(|k| (k, k == 99 && y)).collect::<BTreeMap<_, _>>()),
        1 => value(&(0..n).map(|k| (k, k == 99 && y)).collect::<HashMap<_, _>>()),
        _ => value(&(0..n).collect::<HashSet<_>>()),
    }
}
