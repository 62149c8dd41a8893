//! Text and octet strings.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1_serde::OctetString;

entries!(h_s06_text, h_s06_octets, h_s06_decode_text, h_s06_decode_octets, h_s06_long, h_s06_decode_long, h_s06_convert, h_s06_huge, h_s06_id);

fn valid<const N: usize>() -> String {
    let b = bytes::<N>();
    let n = choice(N + 1);
    assume(utf8(&b[..n]));
    unsafe { String::from_utf8_unchecked(b[..n].to_vec()) }
}

fn h_s06_text() {
    value(&valid::<6>());
}

fn h_s06_octets() {
    let b = bytes::<12>();
    let n = choice(13);
    value(&OctetString::from(b[..n].to_vec()));
    // The borrowing form.
    let o = OctetString::new(&b[..n]);
    written(&o, &spec::element(&[4], &b[..n]));
    let o = OctetString::from(&b[..n]);
    written(&o, &spec::element(&[4], &b[..n]));
}

fn h_s06_decode_text() {
    let b = bytes::<7>();
    let n = choice(8);
    let e = spec::element(&[[0x0c, 0x2c][choice(2)]], &b[..n]);
    if choice(2) == 0 {
        decode_der::<String>(&e);
    } else {
        decode_ber::<String>(&e);
    }
}

fn h_s06_decode_octets() {
    let b = bytes::<12>();
    let n = choice(13);
    let e = spec::element(&[[4, 0x24][choice(2)]], &b[..n]);
    if choice(2) == 0 {
        decode_der::<OctetString>(&e);
    } else {
        decode_ber::<OctetString>(&e);
    }
}

/// Any identifier.
fn h_s06_id() {
    let b = bytes::<6>();
    let n = 2 + choice(5);
    match choice(4) {
        0 => decode_der::<String>(&b[..n]),
        1 => decode_ber::<String>(&b[..n]),
        2 => decode_der::<OctetString>(&b[..n]),
        _ => decode_ber::<OctetString>(&b[..n]),
    }
}

fn h_s06_long() {
    let n = [20, 21, 22, 23, 24, 126, 127, 128, 129, 255, 256][choice(11)];
    let t = text(n);
    if choice(2) == 0 {
        value(&t);
    } else {
        let mut v = t.into_bytes();
        v[n - 1] = u8();
        value(&OctetString::from(v));
    }
}

fn h_s06_convert() {
    let b = bytes::<4>();
    let n = choice(5);
    let b = &b[..n];
    check(OctetString::new(b).into_vec() == b, "into_vec");
    check(OctetString::from(b.to_vec()).into_vec() == b, "vector");
    check(Vec::<u8>::from(OctetString::from(b)) == b, "slice to vector");
    let r: Result<String, _> = OctetString::from(b).try_into();
    match r {
        Ok(s) => {
            check(utf8(b), "text from octets that are none");
            check(s.as_bytes() == b, "text");
            let o = OctetString::from(s.clone());
            let o: &[u8] = o.as_ref();
            check(o == b, "octets of a text");
            let o = OctetString::from(&s[..]);
            let o: &[u8] = o.as_ref();
            check(o == b, "octets of a str");
            cover("text");
        }
        Err(e) => {
            check(!utf8(b), "octets of a text refused");
            check(e.into_bytes() == b, "octets given back");
            cover("no text");
        }
    }
}

/// Long texts with three arbitrary octets in a row.
fn h_s06_decode_long() {
    let n = [17, 24, 31, 32, 33, 130, 260][choice(7)];
    let mut t = vec![b'a'; n];
    let b = bytes::<3>();
    let i = [0, 7, n / 2, n - 3][choice(4)];
    t[i..i + 3].copy_from_slice(&b);
    let e = spec::element(&[0x0c], &t);
    match choice(3) {
        0 => decode_der::<String>(&e),
        1 => decode_ber::<String>(&e),
        _ => match TryInto::<String>::try_into(OctetString::from(t.clone())) {
            Ok(s) => check(utf8(&t) & (s.as_bytes() == &t[..]), "text"),
            Err(e) => check(!utf8(&t) & (e.into_bytes() == t), "octets given back"),
        },
    }
}

fn h_s06_huge() {
    alloc_limit(1 << 20);
    let n = [65535, 65536, 65537][choice(3)];
    let mut v = vec![b'a'; n];
    let i = [0, 40000, n - 3][choice(3)];
    v[i..i + 2].copy_from_slice(&bytes::<2>());
    if choice(2) == 0 {
        both::<String>(&spec::element(&[0x0c], &v));
    } else {
        let v = OctetString::from(v);
        both::<OctetString>(&encoding(&v));
    }
}
