//! BER from a slice.

use crate::spec;
use crate::sym::*;
use bsn1::{BerRef, Length};

entries!(h_b01_slice, h_b01_mut, h_b01_nested, h_b01_deep, h_b01_deeper, h_b01_wide, h_b01_long);

fn parts(d: &BerRef, all: &[u8], t: usize) {
    let o: &[u8] = d.as_ref();
    let (i, l, n) = match spec::id(all).and_then(|i| spec::length(&all[i..]).map(|(n, l)| (i, l, n))) {
        Ok(x) => x,
        Err(_) => fail("oracle"),
    };
    let id: &[u8] = d.id().as_ref();
    check((id.as_ptr() == o.as_ptr()) & (id.len() == i), "identifier");
    let c: &[u8] = d.contents().as_ref();
    check((c.as_ptr() == o[i + l..].as_ptr()) & (c.len() == t - i - l), "contents");
    let (id, len, c) = d.disassemble();
    let id: &[u8] = id.as_ref();
    check((id.as_ptr() == o.as_ptr()) & (id.len() == i), "identifier taken apart");
    let c: &[u8] = c.as_ref();
    check((c.as_ptr() == o[i + l..].as_ptr()) & (c.len() == t - i - l), "contents taken apart");
    match n {
        Some(n) => {
            check(d.length() == Length::Definite(n), "length");
            check(len == Length::Definite(n), "length taken apart");
            cover("definite");
        }
        None => {
            check(d.length().is_indefinite(), "length");
            check(len.is_indefinite(), "length taken apart");
            cover("indefinite");
        }
    }
}

fn slice(all: &[u8]) {
    let mut rest = all;
    match (spec::ber_end(all, 0), BerRef::parse(&mut rest)) {
        (Ok(t), Ok(d)) => {
            let o: &[u8] = d.as_ref();
            check((o.as_ptr() == all.as_ptr()) & (o.len() == t), "octets of the element");
            check((rest.as_ptr() == all[t..].as_ptr()) & (rest.len() == all.len() - t), "slice advanced");
            parts(d, all, t);
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            check((rest.as_ptr() == all.as_ptr()) & (rest.len() == all.len()), "slice moved on failure");
            match k {
                spec::UNTERMINATED => cover("unterminated"),
                spec::REDUNDANT => cover("redundant"),
                _ => cover("overflow"),
            }
        }
        (Ok(_), Err(_)) => fail("refused"),
        (Err(_), Ok(_)) => fail("accepted"),
    }
}

fn mutable(all: &mut [u8]) {
    let copy = all.to_vec();
    let len = all.len();
    let base = all.as_ptr();
    let mut rest = all;
    match (spec::ber_end(&copy, 0), BerRef::parse_mut(&mut rest)) {
        (Ok(t), Ok(d)) => {
            let o: &[u8] = (*d).as_ref();
            check((o.as_ptr() == base) & (o.len() == t), "octets of the element");
            check((rest.as_ptr() == base.wrapping_add(t)) & (rest.len() == len - t), "slice advanced");
            parts(d, &copy, t);
            check(o == &copy[..t], "octets changed");
            check(*rest == copy[t..], "octets behind changed");
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            check((rest.as_ptr() == base) & (rest.len() == len), "slice moved on failure");
            check(*rest == copy[..], "octets changed");
            cover("refused");
        }
        (Ok(_), Err(_)) => fail("refused"),
        (Err(_), Ok(_)) => fail("accepted"),
    }
}

fn h_b01_slice() {
    let b = bytes::<12>();
    let n = choice(13);
    slice(&b[..n]);
}

fn h_b01_mut() {
    let mut b = bytes::<11>();
    let n = choice(12);
    mutable(&mut b[..n]);
}

/// Indefinite elements with short identifiers and lengths, more levels and members.
fn h_b01_nested() {
    let mut v = vec![0x30, 0x80];
    for _ in 0..6 {
        match choice(5) {
            0 => v.extend_from_slice(&[0x30 | u8() & 0xc0, 0x80]),
            1 => v.extend_from_slice(&[0, 0]),
            2 => v.extend_from_slice(&[u8() & 0xc0 | 2, 1, u8()]),
            // octets that look like an end of contents but are not
            3 => v.extend_from_slice(&[4, 2, 0, 0]),
            _ => v.extend_from_slice(&[0, 1, 0]),
        }
    }
    v.extend_from_slice(&[0, 0]);
    slice(&v);
}

/// Deep nesting.
fn h_b01_deep() {
    levels([1usize, 2, 3, 126, 127, 128, 129, 255, 256, 257, 300][choice(11)]);
}

/// More levels than 16 bits can count.
fn h_b01_deeper() {
    alloc_limit(1 << 20);
    levels([32768, 65536][choice(2)]);
}

fn levels(d: usize) {
    let mut v = Vec::new();
    for _ in 0..d {
        v.extend_from_slice(&[0x30, 0x80]);
    }
    v.extend_from_slice(&[4, 1, u8()]);
    for _ in 0..d {
        v.extend_from_slice(&[0, 0]);
    }
    let whole = v.len();
    v.push(u8());
    let cut = choice(4);
    let all = &v[..whole + 1 - cut];
    let mut rest = all;
    match BerRef::parse(&mut rest) {
        Ok(b) => {
            check(cut < 2, "accepted without its end");
            check(AsRef::<[u8]>::as_ref(b).len() == whole, "size of the element");
            check(rest.len() == all.len() - whole, "slice advanced");
            cover("whole");
        }
        Err(e) => {
            check(cut >= 2, "refused");
            check(spec::kind(&e) == spec::UNTERMINATED, "kind of error");
            check(rest.len() == all.len(), "slice moved on failure");
            cover("cut");
        }
    }
}

/// Definite lengths around the boundaries between the forms of the length.
fn h_b01_long() {
    alloc_limit(140000);
    let n = [127usize, 128, 129, 255, 256, 257, 65535, 65536][choice(8)];
    let mut v = vec![u8() & 0xe0 | 4];
    v.extend_from_slice(&spec::make_length(n));
    v.extend_from_slice(&bytes::<260>()[..n.min(260)]);
    v.resize(1 + spec::make_length(n).len() + n, 0);
    if choice(2) == 1 {
        let mut w = vec![0x30, 0x80];
        w.extend_from_slice(&v);
        w.extend_from_slice(&[0, 0]);
        v = w;
    }
    let cut = [-2isize, -1, 0, 1][choice(4)];
    if cut > 0 {
        v.push(u8());
    } else {
        v.truncate((v.len() as isize + cut) as usize);
    }
    slice(&v);
    mutable(&mut v);
}

/// Many elements inside an indefinite one.
fn h_b01_wide() {
    let n = [31, 32, 33, 127, 128, 255, 256, 300][choice(8)];
    let mut v = vec![0x30, 0x80];
    for i in 0..n {
        match i % 3 {
            0 => v.extend_from_slice(&[4, 1, 0]),
            1 => v.extend_from_slice(&[0x30, 0x80, 0, 0]),
            _ => v.extend_from_slice(&[5, 0]),
        }
    }
    // The last one is anything of 2 octets.
    v.extend_from_slice(&bytes::<2>());
    v.extend_from_slice(&[0, 0, 0, 0]);
    slice(&v);
}
