//! Ways of serializing.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1::Error;
use bsn1_serde::{to_ber, to_der, write_ber, write_der, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;

entries!(h_s03_int, h_s03_quiet, h_s03_list, h_s03_map, h_s03_struct, h_s03_slow, h_s03_value, h_s03_long, h_s03_long_slow, h_s03_huge);

fn h_s03_int() {
    match choice(3) {
        0 => {
            let v = u32() as i32;
            ways(&v, &encoding(&v), false)
        }
        1 => {
            let v = bool();
            ways(&v, &encoding(&v), false)
        }
        _ => {
            let v = text(4);
            ways(&v, &encoding(&v), false)
        }
    }
}

fn h_s03_quiet() {
    let v = Quiet::any(u16());
    ways(&v, &encoding(&v), false);
}

fn h_s03_list() {
    let v = vec![Quiet::any(u8()), Quiet::any(u8())];
    ways(&v, &encoding(&v), true);
}

fn h_s03_map() {
    if choice(2) == 0 {
        let mut m = BTreeMap::new();
        m.insert(Quiet::any(3u8), Quiet::any(u8()));
        ways(&m, &encoding(&m), true);
    } else {
        let mut m = HashMap::new();
        m.insert(Quiet::any(3u8), Quiet::any(u8()));
        ways(&m, &encoding(&m), true);
    }
}

#[derive(Serialize)]
struct S {
    a: Quiet<u8>,
    b: bool,
}

#[derive(Serialize)]
enum E {
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 300)]
    A(Quiet<u8>),
    #[bsn1_serde(id = Set)]
    B { s: S },
}

fn put_s(s: &S) -> Vec<u8> {
    let mut c = Vec::new();
    s.a.put(&mut c);
    s.b.put(&mut c);
    spec::element(&[0x30], &c)
}

fn h_s03_struct() {
    match choice(3) {
        0 => {
            let s = S { a: Quiet::any(u8()), b: bool() };
            ways(&s, &put_s(&s), true);
        }
        1 => {
            let a = Quiet::any(u8());
            let mut c = Vec::new();
            a.put(&mut c);
            ways(&E::A(a), &spec::element(&[0xff, 0x82, 0x2c], &c), true);
        }
        _ => {
            let s = S { a: Quiet::any(u8()), b: bool() };
            let c = put_s(&s);
            ways(&E::B { s }, &spec::element(&[0x31], &c), true);
        }
    }
}

/// Nested values into a writer that takes any number of octets.
fn h_s03_slow() {
    match choice(3) {
        0 => {
            let v = vec![bool()];
            ways(&v, &encoding(&v), false);
        }
        1 => {
            let mut m = BTreeMap::new();
            m.insert(bool(), 5u8);
            ways(&m, &encoding(&m), false);
        }
        _ => {
            let a = Quiet::any(u8());
            let mut c = Vec::new();
            a.put(&mut c);
            ways(&E::A(a), &spec::element(&[0xff, 0x82, 0x2c], &c), false);
        }
    }
}

/// A value that fails on its way out.
struct Bad {
    at: usize,
    quiet: bool,
}

impl bsn1_serde::ser::Serialize for Bad {
    fn write_id<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        if self.at == 0 {
            return Err(Error::OverFlow);
        }
        w.write_all(&[2]).map_err(Error::from)
    }
    fn write_der_contents<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        if self.at == 1 {
            return Err(Error::OverFlow);
        }
        w.write_all(&[7])?;
        if self.at == 2 {
            return Err(Error::OverFlow);
        }
        w.write_all(&[8])?;
        Ok(())
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        if self.at == 3 {
            return Err(Error::OverFlow);
        }
        Ok(if self.quiet { None } else { Some(1) })
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        if self.at == 4 {
            return Err(Error::OverFlow);
        }
        Ok(if self.quiet { None } else { Some(2) })
    }
}

#[derive(Serialize)]
struct T {
    a: u8,
    b: Bad,
}

fn failing<V: bsn1_serde::ser::Serialize>(v: &V, want: &[u8], octets: bool) {
    // A failure to announce a size has to show up only if the size is asked for.
    let done = |r: Result<(), Error>, got: &[u8]| match r {
        Ok(()) => {
            check(!octets, "failure of the value lost");
            check(got == want, "octets of the value");
        }
        Err(e) => {
            check(spec::root(&e) == spec::OVERFLOW, "error of the value");
            check(got.len() <= want.len(), "no more than the encoding");
            check(*got == want[..got.len()], "octets written so far");
            cover("value failed");
        }
    };
    match to_der(v) {
        Ok(der) => done(Ok(()), AsRef::<[u8]>::as_ref(&der)),
        Err(e) => done(Err(e), &[]),
    }
    match to_ber(v) {
        Ok(ber) => done(Ok(()), AsRef::<[u8]>::as_ref(&ber)),
        Err(e) => done(Err(e), &[]),
    }
    let mut w = Vec::new();
    let r = if choice(2) == 1 { write_ber(v, &mut w) } else { write_der(v, &mut w) };
    done(r, &w);
}

fn h_s03_value() {
    let b = Bad { at: choice(5), quiet: choice(2) == 1 };
    let bad = [2, 2, 7, 8];
    let octets = b.at < 3;
    match choice(4) {
        0 => failing(&b, &bad, octets),
        1 => failing(&vec![b], &spec::element(&[0x30], &bad), octets),
        2 => {
            let mut m = BTreeMap::new();
            m.insert(1u8, b);
            let p = spec::element(&[0x30], &[2, 1, 1, 2, 2, 7, 8]);
            failing(&m, &spec::element(&[0x30], &p), octets)
        }
        _ => {
            let t = T { a: 1, b };
            failing(&t, &spec::element(&[0x30], &[2, 1, 1, 2, 2, 7, 8]), octets)
        }
    }
}

/// Longer values, the failure at any point.
fn h_s03_long() {
    let n = [126, 127, 128, 129][choice(4)];
    let v = vec![Quiet::any(text(n))];
    ways(&v, &encoding(&v), true);
}

/// Longer values into a writer that takes a few octets at a time.
fn h_s03_long_slow() {
    let n = [120, 127, 128, 129, 255, 256][choice(6)];
    let v = Quiet::any(text(n));
    let most = 1 + choice(4);
    let few = |want: &[u8]| Slow { got: Vec::new(), limit: want.len(), whole: true, most };
    let ber = choice(2) == 1;
    match choice(4) {
        0 => {
            let want = encoding(&v);
            slow(&v, &want, few(&want), ber)
        }
        1 => {
            let v = vec![v];
            let want = encoding(&v);
            slow(&v, &want, few(&want), ber)
        }
        2 => {
            let mut m = BTreeMap::new();
            m.insert(3u8, v);
            let want = encoding(&m);
            slow(&m, &want, few(&want), ber)
        }
        _ => {
            let want = spec::element(&[0x30], &encoding(&v));
            slow(&L { v }, &want, few(&want), ber)
        }
    }
}

#[derive(Serialize)]
struct L {
    v: Quiet<String>,
}

/// More octets than a writer is likely to take at once.
fn h_s03_huge() {
    alloc_limit(1 << 20);
    let n = [8192, 65535, 65536, 70000][choice(4)];
    let v = Quiet::any(text(n));
    let most = [1024, 4096, 65535][choice(3)];
    let ber = choice(2) == 1;
    let w = |want: &[u8]| Slow { got: Vec::new(), limit: [1, n / 2, want.len() - 1, want.len()][choice(4)], whole: true, most };
    if choice(2) == 0 {
        let want = encoding(&v);
        slow(&v, &want, w(&want), ber)
    } else {
        let v = vec![v];
        let want = encoding(&v);
        slow(&v, &want, w(&want), ber)
    }
}
