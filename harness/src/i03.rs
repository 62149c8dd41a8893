//! Identifier parsing.

use crate::spec;
use crate::sym::*;
use bsn1::{Id, IdRef};

entries!(h_i03_slice, h_i03_mut, h_i03_reader, h_i03_number, h_i03_long);

const N: usize = 28;

fn h_i03_slice() {
    let b = bytes::<N>();
    let n = choice(N + 1);
    let all = &b[..n];
    let mut rest = all;
    match (spec::id(all), IdRef::parse(&mut rest)) {
        (Ok(k), Ok(id)) => {
            let o: &[u8] = id.as_ref();
            check(o.len() == k, "size");
            check(o.as_ptr() == all.as_ptr(), "which octets");
            check((rest.len() == n - k) & (rest.as_ptr() == all[k..].as_ptr()), "slice advanced");
            check(id.class() as u8 == b[0] & 0xc0, "class");
            check(id.pc() as u8 == b[0] & 0x20, "flag");
            out(o);
            if k == 1 {
                cover("short");
            }
            if k == N {
                cover("longest");
            }
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            check((rest.len() == n) & (rest.as_ptr() == all.as_ptr()), "slice moved on failure");
            if k == spec::REDUNDANT {
                cover("redundant");
            } else {
                check(k == spec::UNTERMINATED, "oracle");
                cover("unterminated");
            }
        }
        _ => fail("accepted or refused wrongly"),
    }
}

fn h_i03_mut() {
    let mut b = bytes::<N>();
    let copy = b;
    let n = choice(N + 1);
    let base = b.as_ptr();
    let mut rest = &mut b[..n];
    match (spec::id(&copy[..n]), IdRef::parse_mut(&mut rest)) {
        (Ok(k), Ok(id)) => {
            let o: &[u8] = (*id).as_ref();
            check(o == &copy[..k], "octets");
            check(o.as_ptr() == base, "which octets");
            check(rest.len() == n - k, "slice advanced");
            check(rest.as_ptr() == base.wrapping_add(k), "slice advanced");
            cover("accepted");
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            check((rest.len() == n) & (rest.as_ptr() == base), "slice moved on failure");
            cover("refused");
        }
        _ => fail("accepted or refused wrongly"),
    }
    check(b == copy, "octets changed");
}

fn h_i03_reader() {
    let b = bytes::<N>();
    let n = choice(N + 1);
    let mut rest = &b[..n];
    match (spec::id(&b[..n]), Id::parse(&mut rest)) {
        (Ok(k), Ok(id)) => {
            let o: &[u8] = id.as_ref();
            check(o == &b[..k], "octets");
            check(rest.len() == n - k, "reader advanced");
            cover("accepted");
            if k == N {
                cover("longest");
            }
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            cover("refused");
        }
        _ => fail("accepted or refused wrongly"),
    }
}

fn h_i03_number() {
    let b = bytes::<N>();
    let n = choice(N) + 1;
    if let Ok(id) = IdRef::parse(&mut &b[..n]) {
        let o: &[u8] = id.as_ref();
        match (spec::number(o), id.number()) {
            (Some(x), Ok(y)) => {
                check(x == y.get(), "number");
                if o.len() == 20 {
                    cover("largest size with a number");
                }
                out(&x.to_le_bytes());
            }
            (None, Err(e)) => {
                check(spec::kind(&e) == spec::OVERFLOW, "kind of error");
                if o.len() == 20 {
                    cover("smallest size without a number");
                }
            }
            _ => fail("number given or refused wrongly"),
        }
    }
}

/// Identifiers whose number no integer can hold.
fn h_i03_long() {
    let n = [29usize, 63, 64, 127, 128, 129, 255, 256, 257, 300][choice(10)];
    let mut v = vec![0x9f; n];
    v[0] = u8() | 0x1f;
    v[1] = u8();
    v[n - 2] = u8();
    v[n - 1] = u8();
    v.push(u8());
    let mut rest = &v[..];
    let mut reader = &v[..];
    match (spec::id(&v), IdRef::parse(&mut rest), Id::parse(&mut reader)) {
        (Ok(k), Ok(id), Ok(own)) => {
            check(AsRef::<[u8]>::as_ref(id) == &v[..k], "octets");
            check(AsRef::<[u8]>::as_ref(&own) == &v[..k], "octets read");
            check((rest.len() == v.len() - k) & (reader.len() == v.len() - k), "advanced");
            check((id.class() as u8 == v[0] & 0xc0) & (id.pc() as u8 == v[0] & 0x20), "class and flag");
            match (spec::number(&v[..k]), id.number()) {
                (Some(x), Ok(y)) => check(x == y.get(), "number"),
                (None, Err(e)) => check(spec::kind(&e) == spec::OVERFLOW, "kind of error"),
                _ => fail("number given or refused wrongly"),
            }
            if k == n {
                cover("longest");
            }
        }
        (Err(k), Err(e), Err(f)) => {
            check((k == spec::kind(&e)) & (k == spec::kind(&f)), "kind of error");
            check(rest.len() == v.len(), "slice moved on failure");
            cover("refused");
        }
        _ => fail("accepted or refused wrongly"),
    }
}
