//! DER from a slice.

use crate::spec;
use crate::sym::*;
use bsn1::{DerRef, Length};

entries!(h_d01_slice, h_d01_mut, h_d01_long);

fn parts(d: &DerRef, i: usize, l: usize, n: usize) {
    let o: &[u8] = d.as_ref();
    let id: &[u8] = d.id().as_ref();
    check((id.as_ptr() == o.as_ptr()) & (id.len() == i), "identifier");
    check(d.length() == Length::Definite(n), "length");
    let c: &[u8] = d.contents().as_ref();
    check((c.as_ptr() == o[i + l..].as_ptr()) & (c.len() == n), "contents");
    let (id, len, c) = d.disassemble();
    let id: &[u8] = id.as_ref();
    check((id.as_ptr() == o.as_ptr()) & (id.len() == i), "identifier taken apart");
    check(len == Length::Definite(n), "length taken apart");
    let c: &[u8] = c.as_ref();
    check((c.as_ptr() == o[i + l..].as_ptr()) & (c.len() == n), "contents taken apart");
}

fn slice(all: &[u8]) {
    let mut rest = all;
    match (spec::der(all), DerRef::parse(&mut rest)) {
        (Ok((i, l, n)), Ok(d)) => {
            let o: &[u8] = d.as_ref();
            let t = i + l + n;
            check((o.as_ptr() == all.as_ptr()) & (o.len() == t), "octets of the element");
            check((rest.as_ptr() == all[t..].as_ptr()) & (rest.len() == all.len() - t), "slice advanced");
            parts(d, i, l, n);
            cover("accepted");
            if rest.len() > 0 {
                cover("octets left");
            }
            if i > 1 {
                cover("long identifier");
            }
            if l > 1 {
                cover("long length");
            }
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            check((rest.as_ptr() == all.as_ptr()) & (rest.len() == all.len()), "slice moved on failure");
            match k {
                spec::UNTERMINATED => cover("unterminated"),
                spec::REDUNDANT => cover("redundant"),
                spec::OVERFLOW => cover("overflow"),
                _ => cover("indefinite"),
            }
        }
        (Ok(_), Err(_)) => fail("refused"),
        (Err(_), Ok(_)) => fail("accepted"),
    }
}

fn mutable(all: &mut [u8]) {
    let copy = all.to_vec();
    let len = all.len();
    let base = all.as_ptr();
    let mut rest = all;
    match (spec::der(&copy), DerRef::parse_mut(&mut rest)) {
        (Ok((i, l, n)), Ok(d)) => {
            let o: &[u8] = (*d).as_ref();
            let t = i + l + n;
            check((o.as_ptr() == base) & (o.len() == t), "octets of the element");
            check((rest.as_ptr() == base.wrapping_add(t)) & (rest.len() == len - t), "slice advanced");
            parts(d, i, l, n);
            check(o == &copy[..t], "octets changed");
            check(*rest == copy[t..], "octets behind changed");
            cover("accepted");
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            check((rest.as_ptr() == base) & (rest.len() == len), "slice moved on failure");
            check(*rest == copy[..], "octets changed");
            cover("refused");
        }
        (Ok(_), Err(_)) => fail("refused"),
        (Err(_), Ok(_)) => fail("accepted"),
    }
}

fn h_d01_slice() {
    let b = bytes::<16>();
    let n = choice(17);
    slice(&b[..n]);
}

fn h_d01_mut() {
    let mut b = bytes::<16>();
    let n = choice(17);
    mutable(&mut b[..n]);
}

/// Elements and slices around the boundaries between the forms of the length.
fn h_d01_long() {
    alloc_limit(140000);
    let n = [127usize, 128, 129, 255, 256, 257, 65535, 65536][choice(8)];
    let mut v = vec![u8() & 0xe0 | 4];
    v.extend_from_slice(&spec::make_length(n));
    v.extend_from_slice(&bytes::<260>()[..n.min(260)]);
    v.resize(1 + spec::make_length(n).len() + n, 0);
    // Some octets missing, or some more than needed.
    let cut = [-2isize, -1, 0, 1][choice(4)];
    if cut > 0 {
        v.push(u8());
    } else {
        v.truncate((v.len() as isize + cut) as usize);
    }
    slice(&v);
    mutable(&mut v);
}
