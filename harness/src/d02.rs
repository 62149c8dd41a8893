//! DER from a reader.

use crate::spec;
use crate::sym::*;
use bsn1::{Der, DerRef, Error};

entries!(h_d02_pieces, h_d02_fail, h_d02_interrupted, h_d02_long, h_d02_slice_reader, h_d02_huge);

fn same(all: &[u8], want: Result<usize, u8>, got: Result<Der, Error>, pos: usize) {
    match (want, got) {
        (Ok(t), Ok(d)) => {
            let o: &[u8] = d.as_ref();
            check(o.len() == t, "size of the element");
            check(o == &all[..t], "octets of the element");
            check(pos == t, "reader position");
            out(o);
            cover("accepted");
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            cover("refused");
        }
        (Ok(_), Err(_)) => fail("refused"),
        (Err(_), Ok(_)) => fail("accepted"),
    }
}

fn der(all: &[u8]) -> Result<usize, u8> {
    spec::der(all).map(|(i, l, n)| i + l + n)
}

/// Any input, any pieces.
fn h_d02_pieces() {
    let b = bytes::<10>();
    let n = choice(11);
    let all = &b[..n];
    let mut r = spec::Pieces::new(all);
    let got = Der::parse(&mut r);
    // The reader and the slice give the same answer.
    match (DerRef::parse(&mut &*all), &got) {
        (Ok(d), Ok(e)) => check(AsRef::<[u8]>::as_ref(d) == AsRef::<[u8]>::as_ref(e), "reader and slice"),
        (Err(x), Err(y)) => check(spec::kind(&x) == spec::kind(y), "errors of reader and slice"),
        _ => fail("reader and slice disagree"),
    }
    same(all, der(all), got, r.pos);
}

/// The reader fails at any point.
fn h_d02_fail() {
    let b = bytes::<8>();
    let n = choice(9);
    let all = &b[..n];
    let mut r = spec::Pieces::new(all);
    r.stop = choice(n + 1);
    r.fails = true;
    let want = match der(&all[..r.stop]) {
        Err(spec::UNTERMINATED) => Err(spec::IO),
        x => x,
    };
    let got = Der::parse(&mut r);
    if let Err(Error::Io(e)) = &got {
        check(e.kind() == std::io::ErrorKind::BrokenPipe, "kind of I/O error");
        cover("I/O error");
    }
    same(all, want, got, r.pos);
}

/// A read is interrupted.
fn h_d02_interrupted() {
    let b = bytes::<6>();
    let n = choice(7);
    let all = &b[..n];
    let mut r = spec::Pieces::new(all);
    r.interrupt = true;
    let got = Der::parse(&mut r);
    same(all, der(all), got, r.pos);
}

/// A reader that stops once on the way.
struct Two<'a>(&'a [u8], usize, usize);

impl std::io::Read for Two<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let end = if self.1 < self.2 { self.2 } else { self.0.len() };
        let n = (end - self.1).min(buf.len());
        buf[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

/// Longer elements, in at most a few pieces.
fn h_d02_long() {
    let n = [20usize, 21, 22, 23, 127, 128, 255, 256, 600][choice(9)];
    let mut v = vec![u8() & 0xe0 | 4];
    v.extend_from_slice(&spec::make_length(n));
    let h = v.len();
    v.extend_from_slice(&bytes::<600>()[..n]);
    v.push(u8());
    let cut = [0, 1, 2, h, h + 1, h + n / 2, h + n - 1, h + n][choice(8)];
    let mut r = Two(&v, 0, cut);
    let got = Der::parse(&mut r);
    let pos = r.1;
    same(&v, Ok(h + n), got, pos);
    // The same element with its end missing.
    v.truncate(h + n - 1);
    let mut r = Two(&v, 0, cut.min(v.len()));
    match Der::parse(&mut r) {
        Err(e) => check(spec::kind(&e) == spec::UNTERMINATED, "kind of error of a truncated element"),
        Ok(_) => fail("truncated element accepted"),
    }
}

/// The standard library's own readers.
fn h_d02_slice_reader() {
    let b = bytes::<10>();
    let n = choice(11);
    let all = &b[..n];
    let mut rest = all;
    let got = Der::parse(&mut rest);
    let pos = n - rest.len();
    same(all, der(all), got, pos);
    let mut c = std::io::Cursor::new(all);
    let got = Der::parse(&mut c as &mut dyn std::io::Read);
    let pos = c.position() as usize;
    same(all, der(all), got, pos);
}

/// More than a reader is likely to buffer.
fn h_d02_huge() {
    alloc_limit(1 << 20);
    let n = [4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 70000][choice(9)];
    let mut c = vec![9; n];
    c[0] = u8();
    c[n / 2] = u8();
    c[n - 1] = u8();
    let mut v = spec::element(&[4], &c);
    let t = v.len();
    v.extend_from_slice(&bytes::<2>());
    let cut = [0, t - n, t - n + 4096, t - 1, t, t + 1][choice(6)].min(t + 1);
    let mut r = Two(&v, 0, cut);
    let got = Der::parse(&mut r);
    let pos = r.1;
    same(&v, Ok(t), got, pos);
    let mut r = Two(&v[..t - 1], 0, cut.min(t - 1));
    match Der::parse(&mut r) {
        Err(e) => check(spec::kind(&e) == spec::UNTERMINATED, "kind of error of a truncated element"),
        Ok(_) => fail("truncated element accepted"),
    }
}
