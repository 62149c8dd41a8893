//! Oracles written from X.690 and the documented behaviour, independent of the implementation.

use bsn1::Error;

pub const UNTERMINATED: u8 = 0;
pub const REDUNDANT: u8 = 1;
pub const OVERFLOW: u8 = 2;
pub const INDEFINITE: u8 = 3;
pub const BAD_EOC: u8 = 4;
pub const EXTRA: u8 = 5;
pub const UNMATCHED: u8 = 6;
pub const UTF8: u8 = 7;
pub const BOOLEAN: u8 = 8;
pub const PAIR: u8 = 9;
pub const IO: u8 = 10;
pub const WRAPPED: u8 = 11;

/// Kind of an error.
pub fn kind(e: &Error) -> u8 {
    match e {
        Error::UnterminatedBytes => UNTERMINATED,
        Error::RedundantBytes => REDUNDANT,
        Error::OverFlow => OVERFLOW,
        Error::IndefiniteLength => INDEFINITE,
        Error::BadEoc => BAD_EOC,
        Error::ExtraContentsOctet => EXTRA,
        Error::UnmatchedId => UNMATCHED,
        Error::InvalidUtf8 => UTF8,
        Error::InvalidDerBooleanContents => BOOLEAN,
        Error::InvalidKeyValuePair => PAIR,
        Error::Io(_) => IO,
        Error::Anyhow(_) => WRAPPED,
        _ => 255,
    }
}

/// Kind of the innermost error under any number of context messages.
pub fn root(e: &Error) -> u8 {
    let mut k = kind(e);
    if let Some(a) = e.as_anyhow() {
        for c in a.chain() {
            if let Some(e) = c.downcast_ref::<Error>() {
                k = root(e);
                break;
            }
        }
    }
    k
}

/// Size of the canonical identifier `b` starts with.
pub fn id(b: &[u8]) -> Result<usize, u8> {
    if b.is_empty() {
        return Err(UNTERMINATED);
    }
    if b[0] & 0x1f != 0x1f {
        return Ok(1);
    }
    if b.len() < 2 {
        return Err(UNTERMINATED);
    }
    // Numbers up to 30 take the short form, and the first group of the long form is not zero.
    if b[1] == 0x80 || b[1] <= 30 {
        return Err(REDUNDANT);
    }
    let mut i = 1;
    while b[i] >= 0x80 {
        i += 1;
        if i == b.len() {
            return Err(UNTERMINATED);
        }
    }
    Ok(i + 1)
}

/// The tag number of a canonical identifier, or None if it has more than 128 bits.
pub fn number(b: &[u8]) -> Option<u128> {
    if b.len() == 1 {
        return Some((b[0] & 0x1f) as u128);
    }
    let groups = b.len() - 1;
    // 18 groups of 7 bits are 126 bits; the 19th from the right may hold two more.
    if groups > 19 || (groups == 19 && b[1] & 0x7f > 3) {
        return None;
    }
    let mut n = 0u128;
    for o in &b[1..] {
        n = n << 7 | (*o & 0x7f) as u128;
    }
    Some(n)
}

/// Identifier octets of class, constructed flag and number; right aligned in the array.
pub fn make_id(class: u8, constructed: bool, n: u128) -> ([u8; 20], usize) {
    let mut b = [0u8; 20];
    let head = class << 6 | (constructed as u8) << 5;
    if n <= 30 {
        b[19] = head | n as u8;
        return (b, 1);
    }
    let mut k = 1;
    while k < 19 && n >> (7 * k) != 0 {
        k += 1;
    }
    for i in 0..k {
        b[19 - i] = (n >> (7 * i)) as u8 & 0x7f | if i == 0 { 0 } else { 0x80 };
    }
    b[19 - k] = head | 0x1f;
    (b, k + 1)
}

/// The canonical length `b` starts with (None: indefinite) and its size.
pub fn length(b: &[u8]) -> Result<(Option<usize>, usize), u8> {
    if b.is_empty() {
        return Err(UNTERMINATED);
    }
    if b[0] < 0x80 {
        return Ok((Some(b[0] as usize), 1));
    }
    if b[0] == 0x80 {
        return Ok((None, 1));
    }
    if b.len() < 2 {
        return Err(UNTERMINATED);
    }
    if b[1] == 0 || (b[0] == 0x81 && b[1] < 0x80) {
        return Err(REDUNDANT);
    }
    if b[0] > 0x80 + (usize::BITS / 8) as u8 {
        return Err(OVERFLOW);
    }
    // One path for each number of octets.
    let k = crate::sym::split((b[0] & 0x7f) as usize);
    if b.len() < 1 + k {
        return Err(UNTERMINATED);
    }
    let mut n = 0usize;
    for o in &b[1..1 + k] {
        n = n << 8 | *o as usize;
    }
    Ok((Some(n), 1 + k))
}

/// Length octets of a definite length.
pub fn make_length(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else {
        let b = n.to_be_bytes();
        let z = b.iter().take_while(|o| **o == 0).count();
        let mut v = vec![0x80 + (b.len() - z) as u8];
        v.extend_from_slice(&b[z..]);
        v
    }
}

/// identifier || length || contents
pub fn element(id: &[u8], contents: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend_from_slice(&make_length(contents.len()));
    v.extend_from_slice(contents);
    v
}

/// Sizes of identifier, length octets and contents of the DER element `b` starts with.
pub fn der(b: &[u8]) -> Result<(usize, usize, usize), u8> {
    let i = id(b)?;
    let (n, l) = length(&b[i..])?;
    let n = match n {
        None => return Err(INDEFINITE),
        Some(n) => n,
    };
    if n > b.len() - i - l {
        return Err(UNTERMINATED);
    }
    Ok((i, l, crate::sym::split(n)))
}

/// End of the BER element starting at `p`.
pub fn ber_end(b: &[u8], p: usize) -> Result<usize, u8> {
    let i = id(&b[p..])?;
    let (n, l) = length(&b[p + i..])?;
    let mut q = p + i + l;
    match n {
        Some(n) => {
            if n > b.len() - q {
                return Err(UNTERMINATED);
            }
            Ok(q + crate::sym::split(n))
        }
        None => loop {
            let e = ber_end(b, q)?;
            if e - q == 2 && b[q] == 0 && b[q + 1] == 0 {
                return Ok(e);
            }
            q = e;
        },
    }
}

/// Shortest two's complement big-endian form of `v`; right aligned.
pub fn make_int(v: i128) -> ([u8; 16], usize) {
    let b = v.to_be_bytes();
    let mut first = 0;
    while first < 15
        && ((b[first] == 0 && b[first + 1] < 0x80) || (b[first] == 0xff && b[first + 1] >= 0x80))
    {
        first += 1;
    }
    (b, 16 - first)
}

/// Shortest two's complement big-endian form of an unsigned value; right aligned.
pub fn make_uint(v: u128) -> ([u8; 17], usize) {
    let mut b = [0u8; 17];
    b[1..].copy_from_slice(&v.to_be_bytes());
    let mut first = 0;
    while first < 16 && b[first] == 0 && b[first + 1] < 0x80 {
        first += 1;
    }
    (b, 17 - first)
}

/// Value of INTEGER contents in the range `min..=max` (as a sign and a magnitude modulo 2^128).
pub fn int(b: &[u8], signed: bool, bits: u32) -> Result<u128, u8> {
    if b.is_empty() {
        return Err(UNTERMINATED);
    }
    if b.len() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        return Err(REDUNDANT);
    }
    let negative = b[0] >= 0x80;
    let mut v: u128 = if negative { u128::MAX } else { 0 };
    for o in b {
        v = v << 8 | *o as u128;
    }
    let bytes = (bits / 8) as usize;
    let fits = if signed {
        // The sign bit of the type must be the sign of the value.
        b.len() <= bytes
    } else {
        !negative & (b.len() <= bytes || (b.len() == bytes + 1 && b[0] == 0))
    };
    if fits {
        Ok(v)
    } else {
        Err(OVERFLOW)
    }
}

/// A reader that delivers `data[..stop]` in pieces of arbitrary size.
///
/// Behind `stop` it fails if `fails`, else it reports the end of the data. It may be interrupted once.
pub struct Pieces<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub stop: usize,
    pub fails: bool,
    pub interrupt: bool,
}

impl<'a> Pieces<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Pieces { data, pos: 0, stop: data.len(), fails: false, interrupt: false }
    }
}

impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt && crate::sym::choice(2) == 1 {
            self.interrupt = false;
            crate::sym::cover("interrupted");
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let left = self.stop - self.pos;
        if buf.is_empty() {
            return Ok(0);
        }
        if left == 0 {
            return if self.fails { Err(std::io::ErrorKind::BrokenPipe.into()) } else { Ok(0) };
        }
        let max = if left < buf.len() { left } else { buf.len() };
        let n = 1 + crate::sym::choice(max);
        if n < max {
            crate::sym::cover("short read");
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
