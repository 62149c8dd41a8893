//! Contents as plain octets, and booleans.

use crate::spec;
use crate::sym::*;
use bsn1::{Contents, ContentsRef};

entries!(h_c03_bool, h_c03_bool_long, h_c03_octets, h_c03_from, h_c03_write);

fn h_c03_bool() {
    let b = bytes::<4>();
    let n = choice(5);
    let c = <&ContentsRef>::from(&b[..n]);
    let ber = c.to_bool_ber();
    let der = c.to_bool_der();
    if n == 0 {
        check(matches!(&ber, Err(e) if spec::kind(e) == spec::UNTERMINATED), "empty, BER");
        check(matches!(&der, Err(e) if spec::kind(e) == spec::UNTERMINATED), "empty, DER");
        cover("empty");
    } else if n > 1 {
        check(matches!(&ber, Err(e) if spec::kind(e) == spec::EXTRA), "too long, BER");
        check(matches!(&der, Err(e) if spec::kind(e) == spec::EXTRA), "too long, DER");
        cover("too long");
    } else {
        match ber {
            Ok(v) => check(v == (b[0] != 0), "BER value"),
            Err(_) => fail("BER refused"),
        }
        match der {
            Ok(v) => {
                check((b[0] == 0) | (b[0] == 0xff), "DER accepted another octet");
                check(v == (b[0] == 0xff), "DER value");
                cover("DER accepted");
            }
            Err(e) => {
                check((b[0] != 0) & (b[0] != 0xff), "DER refused 00 or FF");
                check(spec::kind(&e) == spec::BOOLEAN, "kind of error");
                cover("DER refused");
            }
        }
    }
    let v = bool();
    let o = if v { [0xff] } else { [0x00] };
    let owned = Contents::from(v);
    check(AsRef::<[u8]>::as_ref(&owned) == o, "owned contents of a bool");
    let shared = <&ContentsRef>::from(v);
    check(AsRef::<[u8]>::as_ref(shared) == o, "borrowed contents of a bool");
}

/// Sizes whose low octet is that of a short one, too.
fn h_c03_bool_long() {
    let b = bytes::<513>();
    let n = [5usize, 127, 128, 129, 255, 256, 257, 512, 513][choice(9)];
    let c = <&ContentsRef>::from(&b[..n]);
    check(matches!(&c.to_bool_ber(), Err(e) if spec::kind(e) == spec::EXTRA), "too long, BER");
    check(matches!(&c.to_bool_der(), Err(e) if spec::kind(e) == spec::EXTRA), "too long, DER");
    cover("too long");
}

const SIZES: [usize; 13] = [0, 1, 5, 22, 23, 24, 25, 127, 128, 255, 256, 257, 300];

fn is(c: &Contents, e: &[u8]) {
    let o: &[u8] = c.as_ref();
    check(o.len() == e.len(), "number of octets");
    check(o == e, "octets");
    check((c.len() == e.len()) & (c.is_empty() == (e.len() == 0)), "len()");
    let r: &ContentsRef = c.as_ref();
    let o: &[u8] = r.as_ref();
    check(o == e, "octets of the borrowed form");
}

/// Every way of making contents of octets.
fn h_c03_octets() {
    let b = bytes::<300>();
    let n = SIZES[choice(13)];
    let e = &b[..n];
    is(&Contents::from(e), e);
    is(&Contents::from(e.to_vec()), e);
    let mut v = Vec::with_capacity(n + 9);
    v.extend_from_slice(e);
    is(&Contents::from(v), e);
    let r = <&ContentsRef>::from(e);
    check(AsRef::<[u8]>::as_ref(r) == e, "borrowed octets");
    check((r.len() == n) & (r.is_empty() == (n == 0)), "borrowed len()");
    let c = Contents::from(r);
    is(&c, e);
    is(&c.clone(), e);
    is(&r.to_owned(), e);
    is(&Contents::from(&b), &b);
    let r = <&ContentsRef>::from(&b);
    check(AsRef::<[u8]>::as_ref(r) == &b, "borrowed array");
    out(c.as_ref());
    if n == 0 {
        cover("empty");
    }
    if n == 300 {
        cover("heap");
    }
}

/// Text.
fn h_c03_from() {
    let mut b = bytes::<257>();
    for o in b.iter_mut() {
        *o &= 0x7f;
    }
    let n = [0, 1, 23, 24, 30, 128, 256, 257][choice(8)];
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    is(&Contents::from(s), &b[..n]);
    is(&Contents::from(String::from(s)), &b[..n]);
    let r = <&ContentsRef>::from(s);
    check(AsRef::<[u8]>::as_ref(r) == &b[..n], "borrowed text");
    cover("done");
}

/// Writing through every mutable view.
fn h_c03_write() {
    let mut b = bytes::<26>();
    let n = [1, 4, 23, 24, 26][choice(5)];
    let mut c = Contents::from(&b[..n]);
    let i = u8() as usize;
    assume(i < n);
    let i = split(i);
    let x = u8();
    let before = c.clone();
    match choice(4) {
        0 => c[i] = x,
        1 => AsMut::<[u8]>::as_mut(&mut c)[i] = x,
        2 => AsMut::<ContentsRef>::as_mut(&mut c)[i] = x,
        _ => c[i..i + 1][0] = x,
    }
    let orig = b;
    is(&before, &orig[..n]);
    {
        let r = <&mut ContentsRef>::from(&mut b[..n]);
        r[i] = x;
        check(r[i] == x, "index");
    }
    is(&c, &b[..n]);
    check(c[i] == x, "index");
    for k in 0..n {
        if k != i {
            check((b[k] == orig[k]) & (c[k] == orig[k]), "another octet changed");
        }
    }
    cover("done");
}
