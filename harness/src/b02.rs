//! BER from a reader.

use crate::spec;
use crate::sym::*;
use bsn1::{Ber, BerRef, Error};

entries!(h_b02_pieces, h_b02_fail, h_b02_interrupted, h_b02_long, h_b02_slice_reader, h_b02_deep, h_b02_huge, h_b02_nested, h_b02_wide);

fn same(all: &[u8], want: Result<usize, u8>, got: Result<Ber, Error>, pos: usize) {
    match (want, got) {
        (Ok(t), Ok(d)) => {
            let o: &[u8] = d.as_ref();
            check(o.len() == t, "size of the element");
            check(o == &all[..t], "octets of the element");
            check(pos == t, "reader position");
            out(o);
            cover("accepted");
            if d.length().is_indefinite() {
                cover("indefinite");
            }
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            cover("refused");
        }
        (Ok(_), Err(_)) => fail("refused"),
        (Err(_), Ok(_)) => fail("accepted"),
    }
}

/// Any input, any pieces.
fn h_b02_pieces() {
    let b = bytes::<9>();
    let n = choice(10);
    let all = &b[..n];
    let mut r = spec::Pieces::new(all);
    let got = Ber::parse(&mut r);
    match (BerRef::parse(&mut &*all), &got) {
        (Ok(d), Ok(e)) => check(AsRef::<[u8]>::as_ref(d) == AsRef::<[u8]>::as_ref(e), "reader and slice"),
        (Err(x), Err(y)) => check(spec::kind(&x) == spec::kind(y), "errors of reader and slice"),
        _ => fail("reader and slice disagree"),
    }
    same(all, spec::ber_end(all, 0), got, r.pos);
}

/// The reader fails at any point.
fn h_b02_fail() {
    let b = bytes::<7>();
    let n = choice(8);
    let all = &b[..n];
    let mut r = spec::Pieces::new(all);
    r.stop = choice(n + 1);
    r.fails = true;
    let want = match spec::ber_end(&all[..r.stop], 0) {
        Err(spec::UNTERMINATED) => Err(spec::IO),
        x => x,
    };
    let got = Ber::parse(&mut r);
    if let Err(Error::Io(e)) = &got {
        check(e.kind() == std::io::ErrorKind::BrokenPipe, "kind of I/O error");
        cover("I/O error");
    }
    same(all, want, got, r.pos);
}

/// A read is interrupted.
fn h_b02_interrupted() {
    let b = bytes::<6>();
    let n = choice(7);
    let all = &b[..n];
    let mut r = spec::Pieces::new(all);
    r.interrupt = true;
    let got = Ber::parse(&mut r);
    same(all, spec::ber_end(all, 0), got, r.pos);
}

/// A reader that stops once on the way.
struct Two<'a>(&'a [u8], usize, usize);

impl std::io::Read for Two<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let end = if self.1 < self.2 { self.2 } else { self.0.len() };
        let n = (end - self.1).min(buf.len());
        buf[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

/// Longer elements, in at most a few pieces.
fn h_b02_long() {
    let n = [17usize, 18, 19, 20, 21, 22, 23, 127, 128, 255, 256, 600][choice(12)];
    let mut v = vec![u8() & 0xe0 | 4];
    v.extend_from_slice(&spec::make_length(n));
    let mut h = v.len();
    v.extend_from_slice(&bytes::<600>()[..n]);
    if choice(2) == 1 {
        let mut w = vec![0x30, 0x80];
        w.extend_from_slice(&v);
        w.extend_from_slice(&[0, 0]);
        v = w;
        h += 2;
    }
    let t = v.len();
    v.push(u8());
    let cut = [0, 1, 2, h, h + 1, h + n / 2, h + n - 1, t - 1, t][choice(9)];
    let mut r = Two(&v, 0, cut);
    let got = Ber::parse(&mut r);
    let pos = r.1;
    same(&v, Ok(t), got, pos);
    v.truncate(t - 1);
    let mut r = Two(&v, 0, cut.min(v.len()));
    match Ber::parse(&mut r) {
        Err(e) => check(spec::kind(&e) == spec::UNTERMINATED, "kind of error of a truncated element"),
        Ok(_) => fail("truncated element accepted"),
    }
}

/// The standard library's own readers.
fn h_b02_slice_reader() {
    let b = bytes::<10>();
    let n = choice(11);
    let all = &b[..n];
    let mut rest = all;
    let got = Ber::parse(&mut rest);
    let pos = n - rest.len();
    same(all, spec::ber_end(all, 0), got, pos);
}

/// Deep nesting.
fn h_b02_deep() {
    let d = [1usize, 2, 11, 12, 127, 128, 129, 256, 300][choice(9)];
    let mut v = Vec::new();
    for _ in 0..d {
        v.extend_from_slice(&[0x30, 0x80]);
    }
    v.extend_from_slice(&[4, 1, u8()]);
    for _ in 0..d {
        v.extend_from_slice(&[0, 0]);
    }
    let whole = v.len();
    v.push(u8());
    let cut = choice(4);
    let mut rest = &v[..whole + 1 - cut];
    let len = rest.len();
    match Ber::parse(&mut rest) {
        Ok(b) => {
            check(cut < 2, "accepted without its end");
            check(AsRef::<[u8]>::as_ref(&b) == &v[..whole], "octets");
            check(rest.len() == len - whole, "reader position");
            cover("whole");
        }
        Err(e) => {
            check(cut >= 2, "refused");
            check(spec::kind(&e) == spec::UNTERMINATED, "kind of error");
            cover("cut");
        }
    }
}

/// More than a reader is likely to buffer.
fn h_b02_huge() {
    alloc_limit(1 << 20);
    let n = [4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 70000][choice(9)];
    let mut c = vec![0; n];
    c[0] = u8();
    c[n / 2] = u8();
    c[n - 1] = u8();
    let mut v = spec::element(&[4], &c);
    if choice(2) == 1 {
        v.splice(..0, [0x30, 0x80]);
        v.extend_from_slice(&[0, 0]);
    }
    let t = v.len();
    v.extend_from_slice(&bytes::<2>());
    let cut = [0, 2, t - n, 4200, t - 1, t, t + 1][choice(7)].min(t + 1);
    let mut r = Two(&v, 0, cut);
    let got = Ber::parse(&mut r);
    let pos = r.1;
    same(&v, Ok(t), got, pos);
    let mut r = Two(&v[..t - 1], 0, cut.min(t - 1));
    match Ber::parse(&mut r) {
        Err(e) => check(spec::kind(&e) == spec::UNTERMINATED, "kind of error of a truncated element"),
        Ok(_) => fail("truncated element accepted"),
    }
}

/// Pieces inside an indefinite element.
fn h_b02_nested() {
    let mut v = vec![0x30, 0x80];
    for _ in 0..5 {
        match choice(5) {
            0 => v.extend_from_slice(&[0x30 | u8() & 0xc0, 0x80]),
            1 => v.extend_from_slice(&[0, 0]),
            2 => v.extend_from_slice(&[u8() & 0xc0 | 2, 1, u8()]),
            3 => v.extend_from_slice(&[4, 2, 0, 0]),
            _ => v.extend_from_slice(&[0, 1, 0]),
        }
    }
    v.extend_from_slice(&[0, 0]);
    let mut r = Two(&v, 0, [0, 5][choice(2)]);
    let got = Ber::parse(&mut r);
    let pos = r.1;
    same(&v, spec::ber_end(&v, 0), got, pos);
}

/// Many elements inside an indefinite one.
fn h_b02_wide() {
    let n = [32, 128, 256][choice(3)];
    let mut v = vec![0x30, 0x80];
    for i in 0..n {
        match i % 3 {
            0 => v.extend_from_slice(&[4, 1, 0]),
            1 => v.extend_from_slice(&[0x30, 0x80, 0, 0]),
            _ => v.extend_from_slice(&[5, 0]),
        }
    }
    // The last one is anything of 2 octets.
    v.extend_from_slice(&bytes::<2>());
    v.extend_from_slice(&[0, 0, 0, 0]);
    let mut r = Two(&v, 0, [0, 200][choice(2)].min(v.len()));
    let got = Ber::parse(&mut r);
    let pos = r.1;
    same(&v, spec::ber_end(&v, 0), got, pos);
}
