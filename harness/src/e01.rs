//! Equality, order and hashing.

use crate::sym::*;
use bsn1::{Ber, BerRef, Buffer, Contents, ContentsRef, Der, DerRef, Id, IdRef};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

entries!(h_e01_id, h_e01_contents, h_e01_der, h_e01_ber, h_e01_buffer, h_e01_inline, h_e01_huge, h_e01_long);

/// Remembers everything it is fed, so that equal digests mean equal input.
#[derive(PartialEq)]
struct Log(Vec<u8>);

impl Hasher for Log {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}

fn digest<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Log(Vec::new());
    t.hash(&mut h);
    h.0
}

/// Two octet strings of 0 to N octets, and whether they are equal.
fn pair<const N: usize>() -> (Vec<u8>, Vec<u8>, bool, Ordering) {
    let (a, b) = (bytes::<N>(), bytes::<N>());
    let (n, m) = (choice(N + 1), choice(N + 1));
    rel(&a[..n], &b[..m])
}

fn rel(a: &[u8], b: &[u8]) -> (Vec<u8>, Vec<u8>, bool, Ordering) {
    let mut o = a.len().cmp(&b.len());
    for i in (0..a.len().min(b.len())).rev() {
        if a[i] < b[i] {
            o = Ordering::Less;
        } else if a[i] > b[i] {
            o = Ordering::Greater;
        }
    }
    (a.to_vec(), b.to_vec(), o == Ordering::Equal, o)
}

macro_rules! equal {
    ($owned:ty, $borrowed:ty, $a:expr, $b:expr, $eq:expr) => {{
        let (ra, rb): (&$borrowed, &$borrowed) = ($a, $b);
        let (oa, ob): ($owned, $owned) = (ra.to_owned(), rb.to_owned());
        let eq: bool = $eq;
        check((ra == rb) == eq, "borrowed with borrowed");
        check((ra != rb) == !eq, "borrowed with borrowed, unequal");
        check((oa == ob) == eq, "owned with owned");
        check((oa != ob) == !eq, "owned with owned, unequal");
        check((oa == rb) == eq, "owned with borrowed");
        check((*ra == ob) == eq, "borrowed with owned");
        check((ob == ra) == eq, "symmetry");
        check(oa == ra, "copy");
        check((ra == ra) & (oa == oa), "reflexivity");
        let (x, y) = (digest(ra), digest(&oa));
        check(x == y, "digests of owned and borrowed");
        if eq {
            check(digest(rb) == x, "digests of equal values");
            check(digest(&ob) == x, "digests of equal owned values");
            cover("equal");
        } else {
            cover("different");
        }
        (oa, ob)
    }};
}

macro_rules! ordered {
    ($oa:expr, $ob:expr, $ra:expr, $rb:expr, $o:expr) => {{
        let o: Ordering = $o;
        check($oa.partial_cmp(&$ob) == Some(o), "order of owned values");
        check($oa.cmp(&$ob) == o, "total order of owned values");
        check($ob.partial_cmp(&$oa) == Some(o.reverse()), "order the other way");
        check(($oa < $ob) == (o == Ordering::Less), "less than");
        check($oa.partial_cmp(&$rb) == Some(o), "order of owned and borrowed");
    }};
}

fn id(v: &[u8]) -> &IdRef {
    unsafe { IdRef::from_bytes_unchecked(v) }
}

fn h_e01_id() {
    let (a, b, eq, o) = pair::<9>();
    assume((a.len() > 0) & (b.len() > 0));
    let (ra, rb) = (id(&a), id(&b));
    let (oa, ob) = equal!(Id, IdRef, ra, rb, eq);
    ordered!(oa, ob, ra, rb, o);
    check(ra.partial_cmp(rb) == Some(o), "order of borrowed values");
    check(ra.cmp(rb) == o, "total order of borrowed values");
    check(ra.partial_cmp(&ob) == Some(o), "order of borrowed and owned");
    check((ra < rb) == (o == Ordering::Less), "borrowed less than");
}

fn h_e01_contents() {
    let (a, b, eq, _) = pair::<9>();
    let (ra, rb) = (<&ContentsRef>::from(&a[..]), <&ContentsRef>::from(&b[..]));
    equal!(Contents, ContentsRef, ra, rb, eq);
}

fn h_e01_der() {
    let (a, b, eq, _) = pair::<9>();
    let (ra, rb) = unsafe { (DerRef::from_bytes_unchecked(&a), DerRef::from_bytes_unchecked(&b)) };
    equal!(Der, DerRef, ra, rb, eq);
}

fn h_e01_ber() {
    let (a, b, eq, _) = pair::<9>();
    let (ra, rb) = unsafe { (BerRef::from_bytes_unchecked(&a), BerRef::from_bytes_unchecked(&b)) };
    equal!(Ber, BerRef, ra, rb, eq);
}

fn buffer(a: &[u8], b: &[u8], eq: bool, o: Ordering) {
    let (oa, ob) = (Buffer::from(a), Buffer::from(b));
    check((oa == ob) == eq, "storage");
    check((oa != ob) == !eq, "storage, unequal");
    check((oa == b.to_vec()) == eq, "storage with vector");
    check(oa.partial_cmp(&ob) == Some(o), "order");
    check(oa.cmp(&ob) == o, "total order");
    check((oa < ob) == (o == Ordering::Less), "less than");
    check(oa.partial_cmp(&b.to_vec()) == Some(o), "order with vector");
    check(digest(&oa) == digest(a), "digest of storage and slice");
    check(oa == oa.clone(), "clone");
}

fn h_e01_buffer() {
    let (a, b, eq, o) = pair::<9>();
    buffer(&a, &b, eq, o);
    // The same octets inline and on the heap.
    let mut v = Vec::with_capacity(60);
    v.extend_from_slice(&b);
    let h = Buffer::from(v);
    let i = Buffer::from(&a[..]);
    check((h == i) == eq, "inline and heap");
    check((i == h) == eq, "heap and inline");
    check(i.cmp(&h) == o, "order of inline and heap");
    cover("done");
}

/// Sizes on both sides of the inline limit; one octet may differ.
fn h_e01_inline() {
    let a = bytes::<26>();
    let n = [22, 23, 24, 26][choice(4)];
    let m = [22, 23, 24, 26][choice(4)];
    let mut b = a;
    let i = choice(26);
    b[i] = u8();
    let (a, b, eq, o) = rel(&a[..n], &b[..m]);
    let (ra, rb) = (<&ContentsRef>::from(&a[..]), <&ContentsRef>::from(&b[..]));
    equal!(Contents, ContentsRef, ra, rb, eq);
    let (ra, rb) = unsafe { (DerRef::from_bytes_unchecked(&a), DerRef::from_bytes_unchecked(&b)) };
    equal!(Der, DerRef, ra, rb, eq);
    let (ra, rb) = unsafe { (BerRef::from_bytes_unchecked(&a), BerRef::from_bytes_unchecked(&b)) };
    equal!(Ber, BerRef, ra, rb, eq);
    let (oa, ob) = equal!(Id, IdRef, id(&a), id(&b), eq);
    check(oa.cmp(&ob) == o, "order");
    buffer(&a, &b, eq, o);
}

/// Long values that share their beginning, the middle octet or the last one different.
fn h_e01_long() {
    const L: [usize; 9] = [7, 31, 32, 33, 64, 65, 128, 256, 263];
    let (x, y, z) = (u8(), u8(), u8());
    let n = L[choice(9)];
    let m = L[choice(9)];
    let mut a = [x; 263];
    let mut b = [x; 263];
    let k = n.min(m);
    let i = [0, k / 2, k - 1][choice(3)];
    a[i] = y;
    b[i] = z;
    let o = if y != z { y.cmp(&z) } else { n.cmp(&m) };
    let eq = o == Ordering::Equal;
    let (a, b) = (&a[..n], &b[..m]);
    match choice(5) {
        0 => {
            equal!(Contents, ContentsRef, <&ContentsRef>::from(a), <&ContentsRef>::from(b), eq);
        }
        1 => {
            let (ra, rb) = unsafe { (DerRef::from_bytes_unchecked(a), DerRef::from_bytes_unchecked(b)) };
            equal!(Der, DerRef, ra, rb, eq);
        }
        2 => {
            let (ra, rb) = unsafe { (BerRef::from_bytes_unchecked(a), BerRef::from_bytes_unchecked(b)) };
            equal!(Ber, BerRef, ra, rb, eq);
        }
        3 => {
            let (ra, rb) = (id(a), id(b));
            let (oa, ob) = equal!(Id, IdRef, ra, rb, eq);
            ordered!(oa, ob, ra, rb, o);
            check(ra.cmp(rb) == o, "total order of borrowed values");
        }
        _ => buffer(a, b, eq, o),
    }
}

/// One octet different somewhere in 65536, or one octet more.
fn h_e01_huge() {
    alloc_limit(1 << 20);
    const L: [usize; 3] = [65535, 65536, 65537];
    let (y, z) = (u8(), u8());
    let n = L[choice(3)];
    let m = L[choice(3)];
    let mut a = vec![9; n];
    let mut b = vec![9; m];
    let k = n.min(m);
    let i = [1, k / 2, k - 1][choice(3)];
    a[i] = y;
    b[i] = z;
    let o = if y != z { y.cmp(&z) } else { n.cmp(&m) };
    let eq = o == Ordering::Equal;
    let (a, b) = (&a[..], &b[..]);
    match choice(4) {
        0 => {
            equal!(Contents, ContentsRef, <&ContentsRef>::from(a), <&ContentsRef>::from(b), eq);
        }
        1 => {
            let (ra, rb) = unsafe { (DerRef::from_bytes_unchecked(a), DerRef::from_bytes_unchecked(b)) };
            equal!(Der, DerRef, ra, rb, eq);
        }
        2 => {
            let (ra, rb) = unsafe { (BerRef::from_bytes_unchecked(a), BerRef::from_bytes_unchecked(b)) };
            equal!(Ber, BerRef, ra, rb, eq);
        }
        _ => buffer(a, b, eq, o),
    }
}
