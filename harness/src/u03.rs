//! No memory left.

use crate::sym::*;
use bsn1::{Ber, BerRef, Contents, Der, DerRef, Error, Id, IdRef};
use bsn1_serde::{from_ber, from_der, to_ber, to_der, Deserialize, OctetString, Serialize};
use std::collections::{BTreeMap, HashMap, LinkedList};

#[path = "/repo/bsn1/src/buffer/universal_endian/mod.rs"]
#[allow(dead_code)]
mod universal;

entries!(h_u03_element, h_u03_change, h_u03_read, h_u03_values, h_u03_serialize, h_u03_deserialize, h_u03_universal);

/// What is done to an element ends as if nothing had happened or in the handler.
fn same(got: impl AsRef<[u8]>, want: &[u8]) {
    let got = got.as_ref();
    check(got == want, "octets");
    out(got);
    cover("enough memory");
}

/// Creation.
fn h_u03_element() {
    let x = bytes::<40>();
    let n = [0, 13, 14, 21, 22, 40][choice(6)];
    let kind = choice(10);
    let mut want = vec![4, n as u8];
    want.extend_from_slice(&x[..n]);
    let a = [Contents::from(&x[..n / 2]), Contents::from(&x[n / 2..n])];
    let c = Contents::from(&x[..n]);
    fail_alloc(1 + choice(3));
    match kind {
        0 => {
            let d = Der::new(IdRef::octet_string(), (&x[..n]).into());
            fail_alloc(0);
            same(d, &want);
        }
        1 => {
            let d = Ber::new(IdRef::octet_string(), (&x[..n]).into());
            fail_alloc(0);
            same(d, &want);
        }
        2 => {
            let d = Der::from_id_iterator(IdRef::octet_string(), a.iter().map(|c| &**c));
            fail_alloc(0);
            same(d, &want);
        }
        3 => {
            let d = Ber::from_id_iterator(IdRef::octet_string(), a.iter().map(|c| &**c));
            fail_alloc(0);
            same(d, &want);
        }
        4 => {
            let d = c.clone();
            fail_alloc(0);
            same(d, &x[..n]);
        }
        5 => {
            let d = unsafe { Ber::new_indefinite(IdRef::octet_string(), &c) };
            fail_alloc(0);
            want[1] = 0x80;
            same(d, &want);
        }
        6 => {
            let d = unsafe { Ber::from_id_iterator_indefinite(IdRef::octet_string(), a.iter().map(|c| &**c)) };
            fail_alloc(0);
            want[1] = 0x80;
            same(d, &want);
        }
        7 => {
            let d = Der::from(&x[..n]).into_vec();
            fail_alloc(0);
            same(d, &want);
        }
        8 => {
            let mut d = Der::with_id_length(IdRef::octet_string(), n);
            fail_alloc(0);
            AsMut::<[u8]>::as_mut(d.mut_contents()).copy_from_slice(&x[..n]);
            same(d, &want);
        }
        _ => {
            let d = Der::new(IdRef::octet_string(), &c);
            let e = d.clone();
            fail_alloc(0);
            same(e, &want);
        }
    }
}

/// Changes to what exists.
fn h_u03_change() {
    let x = bytes::<48>();
    let n = [0, 13, 20, 21, 22][choice(5)];
    let m = [0, 1, 9, 26][choice(4)];
    let kind = choice(4);
    let mut want = vec![4, (n + m) as u8];
    want.extend_from_slice(&x[..n + m]);
    let mut d = Der::new(IdRef::octet_string(), (&x[..n]).into());
    let mut b = Ber::new(IdRef::octet_string(), (&x[..n]).into());
    let mut i = Id::new(bsn1::ClassTag::Private, bsn1::PCTag::Primitive, 5u8.into());
    fail_alloc(1 + choice(3));
    match kind {
        0 => {
            d.extend_from_slice(&x[n..n + m]);
            fail_alloc(0);
            same(d, &want);
        }
        1 => {
            b.extend_from_slice(&x[n..n + m]);
            fail_alloc(0);
            same(b, &want);
        }
        2 => {
            for k in n..n + m {
                b.push(x[k]);
            }
            fail_alloc(0);
            same(b, &want);
        }
        _ => {
            i.set_number(u128::MAX.into());
            let j = i.clone();
            fail_alloc(0);
            check(j.number().is_ok(), "number");
            out(j.as_ref());
            cover("enough memory");
        }
    }
}

/// Readers may also report that there is no memory.
fn parsed<T: AsRef<[u8]>>(r: Result<T, Error>, want: &[u8]) {
    match r {
        Ok(d) => same(d, want),
        Err(Error::Io(e)) => {
            check(e.kind() == std::io::ErrorKind::OutOfMemory, "another error");
            cover("reported");
        }
        Err(_) => fail("refused"),
    }
}

/// Parsing, from a slice and from a reader.
fn h_u03_read() {
    let x = bytes::<40>();
    let n = [0, 13, 14, 22, 40][choice(5)];
    let mut want = vec![4, n as u8];
    want.extend_from_slice(&x[..n]);
    let mut loose = vec![0x24, 0x80];
    loose.extend_from_slice(&want);
    loose.extend_from_slice(&[0, 0]);
    let kind = choice(6);
    fail_alloc(1 + choice(8));
    match kind {
        0 => {
            let d = Der::parse(&mut &want[..]);
            fail_alloc(0);
            parsed(d, &want);
        }
        1 => {
            let d = DerRef::parse(&mut &want[..]).map(Der::from);
            fail_alloc(0);
            parsed(d, &want);
        }
        2 => {
            let d = Ber::parse(&mut &loose[..]);
            fail_alloc(0);
            parsed(d, &loose);
        }
        3 => {
            let d = BerRef::parse(&mut &loose[..]).map(Ber::from);
            fail_alloc(0);
            parsed(d, &loose);
        }
        4 => {
            let d = Ber::parse(&mut &want[..]);
            fail_alloc(0);
            parsed(d, &want);
        }
        _ => {
            let mut i = vec![0xff];
            i.resize(20, 0x81);
            i.push(1);
            fail_alloc(1 + choice(2));
            let d = Id::parse(&mut &i[..]);
            fail_alloc(0);
            parsed(d, &i);
        }
    }
}

/// Numbers and texts.
fn h_u03_values() {
    let v = u128();
    assume(v >> 120 == 0x81);
    let t = text();
    let kind = choice(4);
    fail_alloc(1 + choice(2));
    match kind {
        0 => {
            let c = Contents::from(v);
            fail_alloc(0);
            check(c.to_integer::<u128>() == Ok(v), "number");
        }
        1 => {
            let c = Contents::from(v as i128);
            fail_alloc(0);
            check(c.to_integer::<i128>() == Ok(v as i128), "number");
        }
        2 => {
            let d = Der::from(&t[..]);
            fail_alloc(0);
            check(d.contents().as_ref() == t.as_bytes(), "text");
        }
        _ => {
            let d = Ber::from(t.as_bytes());
            fail_alloc(0);
            check(d.contents().as_ref() == t.as_bytes(), "octets");
        }
    }
    cover("enough memory");
}

fn text() -> String {
    "a text of more than the octets that fit".into()
}

#[derive(Serialize, Deserialize)]
struct S {
    a: u128,
    b: Vec<String>,
}

fn h_u03_serialize() {
    let s = S { a: 1 << 127, b: vec![text(), String::new()] };
    let mut m = BTreeMap::new();
    m.insert(5u8, text());
    let mut h = HashMap::new();
    h.insert(5u8, text());
    let o = OctetString::from(text().into_bytes());
    let kind = choice(8);
    fail_alloc(1 + choice(12));
    macro_rules! go {
        ($f:ident, $e:ident) => {{
            let r = $f(&$e);
            fail_alloc(0);
            check(r.is_ok(), "refused");
            cover("enough memory");
        }};
    }
    match kind {
        0 => go!(to_der, s),
        1 => go!(to_ber, s),
        2 => go!(to_der, m),
        3 => go!(to_ber, m),
        4 => go!(to_der, h),
        5 => go!(to_ber, h),
        6 => go!(to_der, o),
        _ => go!(to_ber, o),
    }
}

fn h_u03_deserialize() {
    let s = S { a: 1 << 127, b: vec![text(), String::new()] };
    let l = LinkedList::from([1u8, 2]);
    let mut m = BTreeMap::new();
    m.insert(5u8, text());
    let mut h = HashMap::new();
    h.insert(5u8, text());
    let kind = choice(8);
    let k = 1 + choice(12);
    macro_rules! go {
        ($t:ty, $e:ident, $to:ident, $from:ident) => {
            match $to(&$e) {
                Ok(d) => {
                    fail_alloc(k);
                    let r = $from::<$t>(&d);
                    fail_alloc(0);
                    check(r.is_ok(), "refused");
                    cover("enough memory");
                }
                Err(_) => fail("harness"),
            }
        };
    }
    match kind {
        0 => go!(S, s, to_der, from_der),
        1 => go!(S, s, to_ber, from_ber),
        2 => go!(LinkedList<u8>, l, to_der, from_der),
        3 => go!(LinkedList<u8>, l, to_ber, from_ber),
        4 => go!(BTreeMap<u8, String>, m, to_der, from_der),
        5 => go!(BTreeMap<u8, String>, m, to_ber, from_ber),
        6 => go!(HashMap<u8, String>, h, to_der, from_der),
        _ => go!(HashMap<u8, String>, h, to_ber, from_ber),
    }
}

/// The storage of big-endian machines.
fn h_u03_universal() {
    let x = bytes::<60>();
    let (n, m, k) = ([0, 16, 17, 20][choice(4)], [0, 1, 20][choice(3)], [0, 20][choice(2)]);
    fail_alloc(1 + choice(4));
    let mut b = universal::Buffer::with_capacity(n);
    unsafe { b.extend_from_slice(&x[..n]) };
    b.reserve(m);
    unsafe { b.extend_from_slice(&x[n..n + m]) };
    b.reserve(k);
    unsafe { b.extend_from_slice(&x[n + m..n + m + k]) };
    let c = b.clone();
    fail_alloc(0);
    same(c.as_slice(), &x[..n + m + k]);
    check(b.as_slice() == c.as_slice(), "copy");
}
