//! What values encode to and decode from, written from the documentation, and the comparison with
//! the implementation.

use crate::spec;
use crate::sym::*;
use bsn1::{BerRef, DerRef, Error};
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::{from_ber, from_der, to_ber, to_der, write_ber, write_der, OctetString};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::Hash;
use std::io::Write;

/// One element, without its end-of-contents octets.
#[derive(Clone, Copy)]
pub struct El<'a> {
    pub id: &'a [u8],
    pub indefinite: bool,
    pub contents: &'a [u8],
}

/// Takes one element off the front of `b`.
pub fn take<'a>(ber: bool, b: &mut &'a [u8]) -> Result<El<'a>, u8> {
    let all: &'a [u8] = b;
    if ber {
        let end = spec::ber_end(all, 0)?;
        let i = spec::id(all)?;
        let (n, l) = spec::length(&all[i..])?;
        *b = &all[end..];
        let e = if n.is_none() { end - 2 } else { end };
        Ok(El { id: &all[..i], indefinite: n.is_none(), contents: &all[i + l..e] })
    } else {
        let (i, l, n) = spec::der(all)?;
        *b = &all[i + l + n..];
        Ok(El { id: &all[..i], indefinite: false, contents: &all[i + l..i + l + n] })
    }
}

pub trait Model: Sized {
    /// Appends the DER encoding.
    fn put(&self, out: &mut Vec<u8>);
    /// The value an element stands for, or the kind of error at the root.
    fn get(ber: bool, e: El) -> Result<Self, u8>;
    fn same(&self, other: &Self) -> bool;
}

pub fn encoding<T: Model>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    v.put(&mut out);
    out
}

/// Decodes the next field of a composite.
pub fn field<T: Model>(ber: bool, b: &mut &[u8]) -> Result<T, u8> {
    let e = take(ber, b)?;
    T::get(ber, e)
}

pub fn expect(e: &El, id: &[u8]) -> Result<(), u8> {
    if e.id == id {
        Ok(())
    } else {
        Err(spec::UNMATCHED)
    }
}

/// Identifier and length of a type that has no indefinite form.
pub fn primitive(e: &El, id: &[u8], other: &[u8]) -> Result<(), u8> {
    match ((e.id == id) | (e.id == other), e.indefinite) {
        (true, false) => Ok(()),
        (true, true) => Err(spec::INDEFINITE),
        (false, false) => Err(spec::UNMATCHED),
        (false, true) => Err(EITHER),
    }
}

/// Both the identifier and the length are wrong: either may be reported.
pub const EITHER: u8 = 200;

/// After the last field.
pub fn finish(b: &[u8]) -> Result<(), u8> {
    if b.is_empty() {
        Ok(())
    } else {
        Err(spec::EXTRA)
    }
}

impl Model for bool {
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&[1, 1, if *self { 0xff } else { 0 }]);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        primitive(&e, &[1], &[1])?;
        if e.contents.is_empty() {
            return Err(spec::UNTERMINATED);
        }
        if e.contents.len() > 1 {
            return Err(spec::EXTRA);
        }
        match e.contents[0] {
            0 => Ok(false),
            0xff => Ok(true),
            _ if ber => Ok(true),
            _ => Err(spec::BOOLEAN),
        }
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
}

macro_rules! int {
    ($($t:ty, $signed:expr, $wide:ty, $make:ident;)*) => { $(
        impl Model for $t {
            fn put(&self, out: &mut Vec<u8>) {
                let (b, k) = spec::$make(*self as $wide);
                let k = split(k);
                out.push(2);
                out.push(k as u8);
                out.extend_from_slice(&b[b.len() - k..]);
            }
            fn get(_: bool, e: El) -> Result<Self, u8> {
                primitive(&e, &[2], &[2])?;
                spec::int(e.contents, $signed, <$t>::BITS).map(|v| v as $t)
            }
            fn same(&self, o: &Self) -> bool {
                *self == *o
            }
        }
    )* };
}

int! {
    i8, true, i128, make_int;
    i16, true, i128, make_int;
    i32, true, i128, make_int;
    i64, true, i128, make_int;
    i128, true, i128, make_int;
    isize, true, i128, make_int;
    u8, false, u128, make_uint;
    u16, false, u128, make_uint;
    u32, false, u128, make_uint;
    u64, false, u128, make_uint;
    u128, false, u128, make_uint;
    usize, false, u128, make_uint;
}

pub fn put_raw(id: &[u8], contents: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(&spec::element(id, contents));
}

/// Whether `b` is valid UTF-8 (RFC 3629, table of well-formed sequences).
pub fn utf8(b: &[u8]) -> bool {
    let t = |i: usize| i < b.len() && b[i] & 0xc0 == 0x80;
    let mut i = 0;
    while i < b.len() {
        let n = match b[i] {
            0..=0x7f => 1,
            0xc2..=0xdf if t(i + 1) => 2,
            0xe0 if t(i + 1) && b[i + 1] >= 0xa0 && t(i + 2) => 3,
            0xe1..=0xec | 0xee..=0xef if t(i + 1) && t(i + 2) => 3,
            0xed if t(i + 1) && b[i + 1] <= 0x9f && t(i + 2) => 3,
            0xf0 if t(i + 1) && b[i + 1] >= 0x90 && t(i + 2) && t(i + 3) => 4,
            0xf1..=0xf3 if t(i + 1) && t(i + 2) && t(i + 3) => 4,
            0xf4 if t(i + 1) && b[i + 1] <= 0x8f && t(i + 2) && t(i + 3) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}

impl Model for String {
    fn put(&self, out: &mut Vec<u8>) {
        put_raw(&[0x0c], self.as_bytes(), out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        primitive(&e, &[0x0c], if ber { &[0x2c] } else { &[0x0c] })?;
        if !utf8(e.contents) {
            return Err(spec::UTF8);
        }
        Ok(unsafe { String::from_utf8_unchecked(e.contents.to_vec()) })
    }
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
}

impl Model for OctetString<'static> {
    fn put(&self, out: &mut Vec<u8>) {
        put_raw(&[4], self.as_ref(), out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        primitive(&e, &[4], if ber { &[0x24] } else { &[4] })?;
        Ok(OctetString::from(e.contents.to_vec()))
    }
    fn same(&self, o: &Self) -> bool {
        let (a, b): (&[u8], &[u8]) = (self.as_ref(), o.as_ref());
        a == b
    }
}

macro_rules! list {
    ($t:ident, $id:expr, $add:ident $(, $b:path)*) => {
        impl<T: Model $(+ $b)*> Model for $t<T> {
            fn put(&self, out: &mut Vec<u8>) {
                let mut c = Vec::new();
                for t in self.iter() {
                    t.put(&mut c);
                }
                put_raw(&[$id], &c, out);
            }
            fn get(ber: bool, e: El) -> Result<Self, u8> {
                expect(&e, &[$id])?;
                let mut b = e.contents;
                let mut r = $t::new();
                while !b.is_empty() {
                    r.$add(field(ber, &mut b)?);
                }
                Ok(r)
            }
            fn same(&self, o: &Self) -> bool {
                let mut r = self.len() == o.len();
                for (a, b) in self.iter().zip(o.iter()) {
                    r &= a.same(b);
                }
                r
            }
        }
    };
}

list!(Vec, 0x30, push);
list!(LinkedList, 0x30, push_back);
list!(VecDeque, 0x30, push_back);
list!(BTreeSet, 0x30, insert, Ord);

impl<T: Model + Eq + Hash> Model for HashSet<T> {
    fn put(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        for t in self.iter() {
            t.put(&mut c);
        }
        put_raw(&[0x31], &c, out);
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        expect(&e, &[0x31])?;
        let mut b = e.contents;
        let mut r = HashSet::new();
        while !b.is_empty() {
            r.insert(field(ber, &mut b)?);
        }
        Ok(r)
    }
    fn same(&self, o: &Self) -> bool {
        let mut r = self.len() == o.len();
        for a in self {
            r &= o.contains(a);
        }
        r
    }
}

pub fn put_pair<K: Model, V: Model>(k: &K, v: &V, out: &mut Vec<u8>) {
    let mut c = Vec::new();
    k.put(&mut c);
    v.put(&mut c);
    put_raw(&[0x30], &c, out);
}

pub fn pair<K: Model, V: Model>(ber: bool, b: &mut &[u8]) -> Result<(K, V), u8> {
    let p = take(ber, b)?;
    if p.id != [0x30] {
        return Err(spec::PAIR);
    }
    let mut c = p.contents;
    let k = take(ber, &mut c)?;
    let v = take(ber, &mut c)?;
    if !c.is_empty() {
        return Err(spec::PAIR);
    }
    let k = K::get(ber, k)?;
    Ok((k, V::get(ber, v)?))
}

macro_rules! map {
    ($t:ident, $id:expr, $($b:path),*) => {
        impl<K: Model $(+ $b)*, V: Model> Model for $t<K, V> {
            fn put(&self, out: &mut Vec<u8>) {
                let mut c = Vec::new();
                for (k, v) in self.iter() {
                    put_pair(k, v, &mut c);
                }
                put_raw(&[$id], &c, out);
            }
            fn get(ber: bool, e: El) -> Result<Self, u8> {
                expect(&e, &[$id])?;
                let mut b = e.contents;
                let mut r = $t::new();
                while !b.is_empty() {
                    let (k, v) = pair(ber, &mut b)?;
                    r.insert(k, v);
                }
                Ok(r)
            }
            fn same(&self, o: &Self) -> bool {
                let mut r = self.len() == o.len();
                for (k, v) in self.iter() {
                    match o.get(k) {
                        Some(w) => r &= v.same(w),
                        None => return false,
                    }
                }
                r
            }
        }
    };
}

map!(BTreeMap, 0x30, Ord);
map!(HashMap, 0x31, Hash, Eq);

impl<T: Model> Model for Box<T> {
    fn put(&self, out: &mut Vec<u8>) {
        (**self).put(out)
    }
    fn get(ber: bool, e: El) -> Result<Self, u8> {
        T::get(ber, e).map(Box::new)
    }
    fn same(&self, o: &Self) -> bool {
        (**self).same(o)
    }
}

/// A value and its encoding: sizes, octets and reading back.
pub fn value<T: Model + Serialize + Deserialize>(v: &T) {
    written(v, &encoding(v));
    back(v);
}

/// The octets written for a value and the announced sizes.
pub fn written<T: ?Sized + Serialize>(v: &T, want: &[u8]) {
    sizes(v, want);
    match to_der(v) {
        Ok(d) => {
            let d: &[u8] = d.as_ref();
            check(d.len() == want.len(), "size of the encoding");
            check(d == want, "encoding");
        }
        Err(_) => fail("serialization failed"),
    }
    cover("written");
}

pub fn sizes<T: ?Sized + Serialize>(v: &T, want: &[u8]) {
    let e = match take(false, &mut &want[..]) {
        Ok(e) => e,
        Err(_) => fail("harness: encoding"),
    };
    match v.id_len() {
        Ok(None) => (),
        Ok(Some(n)) => check(n == e.id.len(), "announced size of the identifier"),
        Err(_) => fail("size of the identifier failed"),
    }
    match v.der_contents_len() {
        Ok(None) => (),
        Ok(Some(n)) => check(n == e.contents.len(), "announced size of the contents"),
        Err(_) => fail("size of the contents failed"),
    }
    let mut b = Vec::new();
    check(v.write_id(&mut b).is_ok(), "writing the identifier failed");
    check(b == e.id, "identifier written");
    let mut b = Vec::new();
    check(v.write_der_contents(&mut b).is_ok(), "writing the contents failed");
    check(b == e.contents, "contents written");
}

/// Reading back what serialization gives.
pub fn back<T: Model + Serialize + Deserialize>(v: &T) {
    let d = match to_der(v) {
        Ok(d) => d,
        Err(_) => fail("serialization failed"),
    };
    match from_der::<T>(&d) {
        Ok(w) => check(w.same(v), "read back from DER"),
        Err(_) => fail("not read back from DER"),
    }
    let b = match to_ber(v) {
        Ok(b) => b,
        Err(_) => fail("serialization to BER failed"),
    };
    match from_ber::<T>(&b) {
        Ok(w) => check(w.same(v), "read back from BER"),
        Err(_) => fail("not read back from BER"),
    }
    cover("read back");
}

pub fn compare<T: Model>(got: Result<T, Error>, want: Result<T, u8>) {
    match (got, want) {
        (Ok(a), Ok(b)) => {
            check(a.same(&b), "decoded value");
            cover("accepted");
        }
        (Err(e), Err(k)) => {
            let r = spec::root(&e);
            let either = (k == EITHER) & ((r == spec::UNMATCHED) | (r == spec::INDEFINITE));
            if k == CONVERSION {
                check(carries_odd(&e), "error of the conversion");
                cover("conversion failed");
            } else {
                check((r == k) | either, "reason of refusal");
            }
            cover("refused");
        }
        (Ok(_), Err(_)) => fail("accepted, should be refused"),
        (Err(_), Ok(_)) => fail("refused, should be accepted"),
    }
}

/// Decoding of the element `b`, as DER.
pub fn decode_der<T: Model + Deserialize>(b: &[u8]) {
    let mut r = b;
    let e = match take(false, &mut r) {
        Ok(e) if r.is_empty() => e,
        _ => {
            assume(false);
            return;
        }
    };
    let d = unsafe { DerRef::from_bytes_unchecked(b) };
    compare(from_der::<T>(d), T::get(false, e));
}

/// Decoding of the element `b`, as BER.
pub fn decode_ber<T: Model + Deserialize>(b: &[u8]) {
    let mut r = b;
    let e = match take(true, &mut r) {
        Ok(e) if r.is_empty() => e,
        _ => {
            assume(false);
            return;
        }
    };
    let d = unsafe { BerRef::from_bytes_unchecked(b) };
    compare(from_ber::<T>(d), T::get(true, e));
    if e.indefinite {
        cover("indefinite");
    }
}

/// The DER encoding `b` with any choice of its constructed elements in the indefinite form.
pub fn loose(b: &[u8]) -> (Vec<u8>, usize) {
    let mut out = Vec::new();
    let mut k = 0;
    let mut r = b;
    while !r.is_empty() {
        let e = match take(false, &mut r) {
            Ok(e) => e,
            Err(_) => fail("harness: encoding"),
        };
        if e.id[0] & 0x20 == 0 {
            out.extend_from_slice(&spec::element(e.id, e.contents));
            continue;
        }
        let (c, n) = loose(e.contents);
        k += n;
        if choice(2) == 1 {
            out.extend_from_slice(e.id);
            out.push(0x80);
            out.extend_from_slice(&c);
            out.extend_from_slice(&[0, 0]);
            k += 1;
        } else {
            out.extend_from_slice(&spec::element(e.id, &c));
        }
    }
    (out, k)
}

/// Every BER form of a value with definite and indefinite lengths decodes to it; DER refuses them.
pub fn forms<T: Model + Deserialize>(v: &T) {
    let (b, k) = loose(&encoding(v));
    match from_ber::<T>(unsafe { BerRef::from_bytes_unchecked(&b) }) {
        Ok(w) => check(w.same(v), "decoded value"),
        Err(_) => fail("indefinite form refused"),
    }
    match bsn1_serde::parse_ber::<T>(&mut &b[..]) {
        Ok(w) => check(w.same(v), "parsed value"),
        Err(_) => fail("indefinite form refused by the parser"),
    }
    let d = bsn1_serde::parse_der::<T>(&mut &b[..]);
    if k == 0 {
        check(d.is_ok(), "definite form refused");
        cover("definite");
    } else {
        check(d.is_err(), "indefinite form accepted as DER");
        cover("indefinite");
    }
}

/// A writer that takes arbitrary numbers of octets and fails after `limit` octets.
pub struct Slow {
    pub got: Vec<u8>,
    pub limit: usize,
    pub whole: bool,
    /// The most octets taken by one call.
    pub most: usize,
}

impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.limit - self.got.len();
        if room == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let max = room.min(b.len()).min(self.most);
        let n = if self.whole { max } else { 1 + choice(max) };
        if n < b.len() {
            cover("short write");
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// All four ways of serializing agree, also with slow and failing writers.
pub fn ways<T: Serialize>(v: &T, want: &[u8], whole: bool) {
    match (to_der(v), to_ber(v)) {
        (Ok(d), Ok(b)) => {
            let (d, b): (&[u8], &[u8]) = (d.as_ref(), b.as_ref());
            check(d == want, "to_der");
            check(b == want, "to_ber");
        }
        _ => fail("serialization failed"),
    }
    let ber = choice(2) == 1;
    // Any point of failure, or none.
    let limit = choice(want.len() + 1);
    slow(v, want, Slow { got: Vec::new(), limit, whole, most: usize::MAX }, ber);
}

/// Writing to a given writer.
pub fn slow<T: Serialize>(v: &T, want: &[u8], mut w: Slow, ber: bool) {
    let limit = w.limit;
    let r = if ber { write_ber(v, &mut w) } else { write_der(v, &mut w) };
    check(w.got == want[..w.got.len()], "octets written so far");
    if limit == want.len() {
        check(r.is_ok(), "writing failed");
        check(w.got.len() == want.len(), "everything written");
        cover("written");
    } else {
        match r {
            Ok(_) => fail("failure of the writer lost"),
            Err(e) => check(spec::root(&e) == spec::IO, "failure of the writer"),
        }
        cover("writer failed");
    }
}

/// A text of `n` octets: valid UTF-8, one- or two-octet characters.
pub fn text(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    let a = u8();
    let b = u8();
    assume((a < 0x80) & (b >= 0xc2) & (b <= 0xdf));
    let c = 0x80 | u8() & 0x3f;
    if n >= 3 {
        v.extend_from_slice(&[b, c]);
    }
    while v.len() < n {
        v.push(a);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// A value whose serializer does not announce some of its sizes.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Quiet<T> {
    pub v: T,
    pub id: bool,
    pub contents: bool,
}

impl<T> Quiet<T> {
    /// Any of the four combinations.
    pub fn any(v: T) -> Self {
        Quiet { v, id: choice(2) == 1, contents: choice(2) == 1 }
    }
}

impl<T: Serialize> Serialize for Quiet<T> {
    fn write_id<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        self.v.write_id(w)
    }
    fn write_der_contents<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        self.v.write_der_contents(w)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        if self.id {
            Ok(None)
        } else {
            self.v.id_len()
        }
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        if self.contents {
            Ok(None)
        } else {
            self.v.der_contents_len()
        }
    }
}

impl<T: Model> Model for Quiet<T> {
    fn put(&self, out: &mut Vec<u8>) {
        self.v.put(out)
    }
    fn get(_: bool, _: El) -> Result<Self, u8> {
        fail("harness: not decoded")
    }
    fn same(&self, o: &Self) -> bool {
        self.v.same(&o.v)
    }
}

/// A struct that is the SEQUENCE (or what `$id` says) of its fields.
#[macro_export]
macro_rules! model_struct {
    ([$($g:tt)*] $t:ty, $id:expr, $c:ident { $($f:tt : $ft:ty),* $(,)? }) => {
        impl $($g)* $crate::model::Model for $t {
            #[allow(unused_mut)]
            fn put(&self, out: &mut Vec<u8>) {
                let mut c = Vec::new();
                $( self.$f.put(&mut c); )*
                $crate::model::put_raw(&$id, &c, out);
            }
            #[allow(unused_mut, unused_variables)]
            fn get(ber: bool, e: $crate::model::El) -> Result<Self, u8> {
                $crate::model::expect(&e, &$id)?;
                let mut c = e.contents;
                let r = $c { $( $f: $crate::model::field::<$ft>(ber, &mut c)? ),* };
                $crate::model::finish(c)?;
                Ok(r)
            }
            #[allow(unused_variables)]
            fn same(&self, o: &Self) -> bool {
                true $( & self.$f.same(&o.$f) )*
            }
        }
    };
}

/// Types whose own encoding is not asked for where an attribute says otherwise.
#[macro_export]
macro_rules! untouched {
    ($([$($g:tt)*] $t:ty),* $(,)?) => { $(
        impl $($g)* bsn1_serde::ser::Serialize for $t {
            fn write_id<W: ?Sized + std::io::Write>(&self, _: &mut W) -> Result<(), bsn1::Error> {
                $crate::sym::fail("identifier written past the attribute")
            }
            fn write_der_contents<W: ?Sized + std::io::Write>(&self, _: &mut W) -> Result<(), bsn1::Error> {
                $crate::sym::fail("contents written past the attribute")
            }
            fn id_len(&self) -> Result<Option<usize>, bsn1::Error> {
                $crate::sym::fail("identifier measured past the attribute")
            }
            fn der_contents_len(&self) -> Result<Option<usize>, bsn1::Error> {
                $crate::sym::fail("contents measured past the attribute")
            }
        }
        impl $($g)* bsn1_serde::de::Deserialize for $t {
            unsafe fn from_ber(_: &bsn1::IdRef, _: bsn1::Length, _: &bsn1::ContentsRef) -> Result<Self, bsn1::Error> {
                $crate::sym::fail("BER read past the attribute")
            }
            fn from_der(_: &bsn1::IdRef, _: &bsn1::ContentsRef) -> Result<Self, bsn1::Error> {
                $crate::sym::fail("DER read past the attribute")
            }
        }
    )* };
}

/// An enum whose variants are told apart by their identifiers.
#[macro_export]
macro_rules! model_enum {
    ($t:ident { $( $v:ident $id:tt { $($f:tt $x:ident : $ft:ty),* $(,)? } )* }) => {
        impl $crate::model::Model for $t {
            #[allow(unused_mut)]
            fn put(&self, out: &mut Vec<u8>) {
                let mut c = Vec::new();
                $( if let $t::$v { $($f: $x),* } = self {
                    $( $x.put(&mut c); )*
                    $crate::model::put_raw(&$id, &c, out);
                } )*
            }
            #[allow(unused_mut)]
            fn get(ber: bool, e: $crate::model::El) -> Result<Self, u8> {
                let mut c = e.contents;
                let _ = ber;
                $( if e.id == $id {
                    $( let $x = $crate::model::field::<$ft>(ber, &mut c)?; )*
                    $crate::model::finish(c)?;
                    return Ok($t::$v { $($f: $x),* });
                } )*
                Err($crate::spec::UNMATCHED)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    };
}

/// DER or BER decoding of `e`.
pub fn both<T: Model + Deserialize>(e: &[u8]) {
    if choice(2) == 0 {
        decode_der::<T>(e);
    } else {
        decode_ber::<T>(e);
    }
}

/// Any contents of 0 to N octets under an identifier.
pub fn under<const N: usize>(id: &[u8]) -> Vec<u8> {
    let b = bytes::<N>();
    let n = choice(N + 1);
    spec::element(id, &b[..n])
}

/// Any contents of 0 to N octets and the end-of-contents octets under the indefinite length.
pub fn indefinite<const N: usize>(id: &[u8]) -> Vec<u8> {
    let b = bytes::<N>();
    let n = choice(N + 1);
    let mut v = id.to_vec();
    v.push(0x80);
    v.extend_from_slice(&b[..n]);
    v.extend_from_slice(&[0, 0]);
    v
}

/// The error of the conversions in the catalogue.
#[derive(Debug)]
pub struct Odd(pub u8);

impl std::fmt::Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("odd")
    }
}

impl std::error::Error for Odd {}

/// A conversion failed; the error has to carry `Odd`.
pub const CONVERSION: u8 = 201;

pub fn carries_odd(e: &Error) -> bool {
    match e.as_anyhow() {
        Some(a) => a.chain().any(|c| c.downcast_ref::<Odd>().is_some()),
        None => false,
    }
}
