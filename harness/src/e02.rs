//! Errors and context.

use crate::spec;
use crate::sym::*;
use bsn1::Error;
use std::fmt::Write;

entries!(h_e02_root, h_e02_equal, h_e02_message, h_e02_serde);

fn make(k: usize) -> Error {
    match k as u8 {
        spec::UNTERMINATED => Error::UnterminatedBytes,
        spec::REDUNDANT => Error::RedundantBytes,
        spec::OVERFLOW => Error::OverFlow,
        spec::INDEFINITE => Error::IndefiniteLength,
        spec::BAD_EOC => Error::BadEoc,
        spec::EXTRA => Error::ExtraContentsOctet,
        spec::UNMATCHED => Error::UnmatchedId,
        spec::UTF8 => Error::InvalidUtf8,
        spec::BOOLEAN => Error::InvalidDerBooleanContents,
        spec::PAIR => Error::InvalidKeyValuePair,
        spec::IO => Error::Io(std::io::ErrorKind::NotFound.into()),
        _ => fail("harness"),
    }
}

const TEXT: [&str; 3] = ["first", "second level", ""];

fn wrap(mut e: Error, levels: usize) -> Error {
    for i in 0..levels {
        e = e.context(TEXT[i]);
    }
    e
}

fn h_e02_root() {
    let k = choice(11);
    let n = choice(4);
    let e = wrap(make(k), n);
    check(spec::kind(e.root_cause()) == k as u8, "root cause");
    if n == 0 {
        check(std::ptr::eq(e.root_cause(), &e), "an error without context is its own root cause");
        check(e.as_anyhow().is_none(), "not wrapped");
        cover("plain");
    } else {
        check(spec::kind(&e) == spec::WRAPPED, "wrapped");
        match e.as_anyhow() {
            Some(a) => {
                let mut c = 0;
                for _ in a.chain() {
                    c += 1;
                }
                check(c >= n + 1, "every context is kept");
            }
            None => fail("wrapped"),
        }
        cover("wrapped");
    }
    if k == spec::IO as usize {
        match e.root_cause() {
            Error::Io(i) => check(i.kind() == std::io::ErrorKind::NotFound, "I/O error"),
            _ => fail("I/O error"),
        }
    }
    // Through anyhow and back.
    let a = e.into_anyhow();
    let back = Error::from(a);
    check(spec::kind(back.root_cause()) == k as u8, "root cause after conversion");
}

fn h_e02_equal() {
    let (k, n) = (choice(11), choice(2));
    let (j, m) = (choice(11), choice(2));
    let (a, b) = (wrap(make(k), n), wrap(make(j), m));
    let want = (k == j) & (n == 0) & (m == 0) & (k != spec::IO as usize);
    check((a == b) == want, "equality");
    check((b == a) == want, "equality the other way");
    check((a != b) == !want, "inequality");
    if want {
        cover("equal");
    } else {
        cover("different");
    }
}

struct Text([u8; 100], usize);

impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0[self.1..self.1 + s.len()].copy_from_slice(s.as_bytes());
        self.1 += s.len();
        Ok(())
    }
}

fn text(e: &Error) -> Text {
    let mut t = Text([0; 100], 0);
    let _ = write!(t, "{}", e);
    t
}

fn h_e02_message() {
    let k = choice(11);
    let n = choice(4);
    let plain = text(&make(k));
    check(plain.1 > 0, "every error has a message");
    let t = text(&wrap(make(k), n));
    let t = &t.0[..t.1];
    if n == 0 {
        check(t == &plain.0[..plain.1], "message");
        cover("plain");
    } else {
        check(t == TEXT[n - 1].as_bytes(), "message is the outermost context");
        cover("wrapped");
    }
    // Different kinds have different messages.
    let j = choice(11);
    if j != k {
        let o = text(&make(j));
        check(o.0[..o.1] != plain.0[..plain.1], "messages differ");
    }
}

/// An error that comes out of decoding keeps its root cause.
fn h_e02_serde() {
    let b = bytes::<4>();
    let mut v = vec![0x30, 4];
    v.extend_from_slice(&b);
    let der = unsafe { bsn1::DerRef::from_bytes_unchecked(&v) };
    match bsn1_serde::from_der::<Vec<u8>>(der) {
        Ok(_) => cover("accepted"),
        Err(e) => {
            let r = e.root_cause();
            check(spec::kind(r) != spec::WRAPPED, "root cause");
            check(spec::kind(r) == spec::root(&e), "root cause of a decoding error");
            cover("refused");
        }
    }
}
