//! Building BER elements.

use crate::spec;
use crate::sym::*;
use bsn1::{Ber, BerRef, ContentsRef, Der, DerRef, IdRef};
use std::borrow::Borrow;

entries!(h_b03_definite, h_b03_indefinite, h_b03_iterator, h_b03_primitive, h_b03_eoc, h_b03_two_octets, h_b03_chunks);

const SIZES: [usize; 17] = [0, 1, 2, 18, 19, 20, 21, 22, 23, 24, 126, 127, 128, 254, 255, 256, 300];

fn any_id(b: &mut [u8; 4]) -> &IdRef {
    let k = choice(4) + 1;
    let h = u8() & 0xe0;
    match k {
        1 => b[0] = h | u8() % 31,
        2 => *b = [h | 0x1f, 31 + u8() % 97, 0, 0],
        3 => *b = [h | 0x1f, 0x80 | (1 + u8() % 127), u8() & 0x7f, 0],
        _ => *b = [h | 0x1f, 0x80 | (1 + u8() % 127), 0x80 | u8(), u8() & 0x7f],
    }
    unsafe { IdRef::from_bytes_unchecked(&b[..k]) }
}

fn same(d: &Ber, id: &IdRef, c: &[u8], indefinite: bool) {
    let i: &[u8] = id.as_ref();
    let e = if indefinite {
        let mut v = i.to_vec();
        v.push(0x80);
        v.extend_from_slice(c);
        v
    } else {
        spec::element(i, c)
    };
    let o: &[u8] = d.as_ref();
    check(o.len() == e.len(), "size");
    check(o == &e[..], "octets");
    check(AsRef::<[u8]>::as_ref(d.id()) == i, "identifier");
    check(AsRef::<[u8]>::as_ref(d.contents()) == c, "contents");
    let want = if indefinite { None } else { Some(c.len()) };
    check(d.length().definite() == want, "length");
    check(d.length().is_indefinite() == indefinite, "kind of length");
    let (x, l, y) = d.disassemble();
    check(AsRef::<[u8]>::as_ref(x) == i, "identifier taken apart");
    check(l.definite() == want, "length taken apart");
    check(AsRef::<[u8]>::as_ref(y) == c, "contents taken apart");
}

fn copies(d: Ber, id: &IdRef, c: &[u8], indefinite: bool) {
    let r: &BerRef = d.as_ref();
    same(&Ber::from(r), id, c, indefinite);
    same(&r.to_owned(), id, c, indefinite);
    let r: &BerRef = d.borrow();
    same(&r.to_owned(), id, c, indefinite);
    let k = d.clone();
    same(&k, id, c, indefinite);
    let o = AsRef::<[u8]>::as_ref(&d).to_vec();
    let v = d.into_vec();
    check(v == o, "vector");
    same(&unsafe { Ber::from_vec_unchecked(v) }, id, c, indefinite);
    same(&unsafe { Ber::from_bytes_unchecked(&o) }, id, c, indefinite);
    same(&k, id, c, indefinite);
    check(k.into_vec() == o, "vector of a copy");
    out(&o);
}

fn h_b03_definite() {
    let mut b = [0u8; 4];
    let id = any_id(&mut b);
    let n = SIZES[choice(SIZES.len())];
    let c = bytes::<300>();
    let c = &c[..n];
    let r = <&ContentsRef>::from(c);
    let mut w = Ber::with_id_length(id, n);
    check(w.contents().len() == n, "size of the contents to be filled in");
    AsMut::<[u8]>::as_mut(w.mut_contents()).copy_from_slice(c);
    same(&w, id, c, false);
    // From DER.
    let d = Der::new(id, r);
    let x: &DerRef = d.as_ref();
    same(&Ber::from(x), id, c, false);
    let y = <&BerRef>::from(x);
    check(AsRef::<[u8]>::as_ref(y) == AsRef::<[u8]>::as_ref(x), "DER borrowed as BER");
    same(&Ber::from(d), id, c, false);
    let d = Ber::new(id, r);
    same(&d, id, c, false);
    copies(d, id, c, false);
    cover("done");
}

fn h_b03_indefinite() {
    let mut b = [0u8; 4];
    let id = any_id(&mut b);
    let n = SIZES[choice(SIZES.len())];
    let c = bytes::<300>();
    let c = &c[..n];
    let mut w = unsafe { Ber::with_id_length_indefinite(id, n) };
    check(w.contents().len() == n, "size of the contents to be filled in");
    AsMut::<[u8]>::as_mut(w.mut_contents()).copy_from_slice(c);
    same(&w, id, c, true);
    let d = unsafe { Ber::new_indefinite(id, <&ContentsRef>::from(c)) };
    same(&d, id, c, true);
    copies(d, id, c, true);
    cover("done");
}

fn h_b03_iterator() {
    let mut b = [0u8; 4];
    let id = any_id(&mut b);
    let c = bytes::<300>();
    let n = SIZES[choice(SIZES.len())];
    let c = &c[..n];
    let chunks: Vec<&[u8]> = match choice(4) {
        0 => {
            assume(n == 0);
            vec![]
        }
        1 => vec![c],
        2 => {
            let k = [0, 1, n / 2, n][choice(4)].min(n);
            vec![&c[..k], &c[k..]]
        }
        _ => {
            let k = n / 3;
            vec![&c[..k], &[], &c[k..]]
        }
    };
    same(&Ber::from_id_iterator(id, chunks.iter()), id, c, false);
    same(&unsafe { Ber::from_id_iterator_indefinite(id, chunks.iter()) }, id, c, true);
    cover("done");
}

fn h_b03_primitive() {
    let c = bytes::<300>();
    let n = SIZES[choice(SIZES.len())];
    let c = &c[..n];
    same(&Ber::from(c), IdRef::octet_string(), c, false);
    let mut t = c.to_vec();
    for o in t.iter_mut() {
        *o &= 0x7f;
    }
    same(&Ber::from(unsafe { std::str::from_utf8_unchecked(&t) }), IdRef::utf8_string(), &t, false);
    let v = choice(2) == 1;
    let o = [if v { 0xff } else { 0 }];
    same(&Ber::from(v), IdRef::boolean(), &o, false);
    cover("done");
}

fn h_b03_eoc() {
    check(AsRef::<[u8]>::as_ref(BerRef::eoc()) == [0, 0], "end of contents");
    check(BerRef::eoc().contents().is_empty(), "contents of the end of contents");
    check(BerRef::eoc().id() == IdRef::eoc(), "identifier of the end of contents");
    cover("done");
}

/// The boundary between two and three octets of length.
fn h_b03_two_octets() {
    alloc_limit(70000);
    let n = [65535usize, 65536][choice(2)];
    let mut c = vec![0u8; n];
    let x = bytes::<3>();
    c[0] = x[0];
    c[n / 2] = x[1];
    c[n - 1] = x[2];
    let h: &[u8] = if n == 65535 { &[0x24, 0x82, 0xff, 0xff] } else { &[0x24, 0x83, 1, 0, 0] };
    let id = unsafe { IdRef::from_bytes_unchecked(&h[..1]) };
    let (d, h) = match choice(3) {
        0 => (Ber::new(id, <&ContentsRef>::from(&c[..])), h),
        1 => (Ber::from_id_iterator(id, [&c[..300], &c[300..]].iter()), h),
        _ => (unsafe { Ber::new_indefinite(id, <&ContentsRef>::from(&c[..])) }, &[0x24u8, 0x80][..]),
    };
    let o: &[u8] = d.as_ref();
    check(o.len() == h.len() + n, "size");
    check(&o[..h.len()] == h, "identifier and length");
    let c2: &[u8] = d.contents().as_ref();
    check((c2.len() == n) & (c2.as_ptr() == o[h.len()..].as_ptr()), "contents");
    check((c2[0] == x[0]) & (c2[n / 2] == x[1]) & (c2[n - 1] == x[2]), "contents octets");
    check((c2[1] == 0) & (c2[n - 2] == 0), "contents octets");
    cover("done");
}

/// Many chunks from an iterator that does not know how many there are.
fn h_b03_chunks() {
    let n = [4, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256][choice(13)];
    let c = bytes::<256>();
    let c = &c[..n];
    let id = [IdRef::sequence(), IdRef::octet_string()][choice(2)];
    let k = 1 + choice(3);
    let chunks = c.chunks(k).flat_map(|x| [&x[..0], x]).filter(|x| (x.len() > 0) | (k == 2));
    same(&Ber::from_id_iterator(id, chunks.clone()), id, c, false);
    same(&unsafe { Ber::from_id_iterator_indefinite(id, chunks) }, id, c, true);
    cover("done");
}
