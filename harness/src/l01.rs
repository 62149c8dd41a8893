//! Length octets: shortest form, exact inverse.

use crate::sym::*;
use bsn1::Length;

entries!(h_l01_definite, h_l01_indefinite);

/// The octets X.690 8.1.3 prescribes for a byte count, shortest form, right aligned.
fn expected(n: u64) -> ([u8; 9], usize) {
    let mut b = [0u8; 9];
    if n < 128 {
        b[8] = n as u8;
        return (b, 1);
    }
    b[1..].copy_from_slice(&n.to_be_bytes());
    let mut first = 1;
    while b[first] == 0 {
        first += 1;
    }
    b[first - 1] = 0x80 | (9 - first) as u8;
    (b, 9 - first + 1)
}

fn h_l01_definite() {
    let n = usize();
    let (e, k) = expected(n as u64);
    let e = &e[9 - k..];
    let l = Length::Definite(n);
    let o = l.to_bytes();
    check(o.len() == k, "number of octets");
    check(&*o == e, "octets");
    check(l.len() == k, "advertised size");
    check(l.definite() == Some(n), "definite()");
    check(l.is_definite() & !l.is_indefinite(), "kind");
    out(&o);

    // Followed by anything, the octets parse back to the same length.
    let tail = bytes::<3>();
    let mut buf = [0u8; 12];
    buf[..k].copy_from_slice(e);
    buf[k..k + 3].copy_from_slice(&tail);
    let extra = choice(4);
    let mut rest = &buf[..k + extra];
    match Length::parse(&mut rest) {
        Ok(Length::Definite(m)) => check(m == n, "parsed value"),
        _ => fail("not parsed back"),
    }
    check(rest.len() == extra, "octets left");
    check(rest == &tail[..extra], "which octets are left");
    if k == 1 {
        cover("short form");
    }
    if k == 9 {
        cover("eight length octets");
    }
}

fn h_l01_indefinite() {
    let l = Length::Indefinite;
    let o = l.to_bytes();
    check(&*o == &[0x80], "octets");
    check(l.len() == 1, "advertised size");
    check(l.definite().is_none(), "definite()");
    check(l.is_indefinite() & !l.is_definite(), "kind");
    let tail = bytes::<3>();
    let buf = [0x80, tail[0], tail[1], tail[2]];
    let mut rest = &buf[..1 + choice(4)];
    let n = rest.len();
    match Length::parse(&mut rest) {
        Ok(Length::Indefinite) => {}
        _ => fail("not parsed back"),
    }
    check(rest.len() == n - 1, "octets left");
    cover("indefinite");
}
