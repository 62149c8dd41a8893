//! Building DER elements.

use crate::spec;
use crate::sym::*;
use bsn1::{ContentsRef, Der, DerRef, IdRef, Length};
use std::borrow::Borrow;

entries!(h_d03_build, h_d03_iterator, h_d03_primitive, h_d03_two_octets, h_d03_chunks);

pub const SIZES: [usize; 17] = [0, 1, 2, 18, 19, 20, 21, 22, 23, 24, 126, 127, 128, 254, 255, 256, 300];

/// An identifier of 1 to 4 octets.
pub fn any_id(b: &mut [u8; 4]) -> &IdRef {
    let k = choice(4) + 1;
    let h = u8() & 0xe0;
    match k {
        1 => b[0] = h | u8() % 31,
        2 => *b = [h | 0x1f, 31 + u8() % 97, 0, 0],
        3 => *b = [h | 0x1f, 0x80 | (1 + u8() % 127), u8() & 0x7f, 0],
        _ => *b = [h | 0x1f, 0x80 | (1 + u8() % 127), 0x80 | u8(), u8() & 0x7f],
    }
    unsafe { IdRef::from_bytes_unchecked(&b[..k]) }
}

fn same(d: &Der, id: &IdRef, c: &[u8]) {
    let i: &[u8] = id.as_ref();
    let e = spec::element(i, c);
    let o: &[u8] = d.as_ref();
    check(o.len() == e.len(), "size");
    check(o == &e[..], "octets");
    check(AsRef::<[u8]>::as_ref(d.id()) == i, "identifier");
    check(d.length() == Length::Definite(c.len()), "length");
    check(AsRef::<[u8]>::as_ref(d.contents()) == c, "contents");
    let (x, l, y) = d.disassemble();
    check(AsRef::<[u8]>::as_ref(x) == i, "identifier taken apart");
    check(l == Length::Definite(c.len()), "length taken apart");
    check(AsRef::<[u8]>::as_ref(y) == c, "contents taken apart");
}

fn h_d03_build() {
    let mut b = [0u8; 4];
    let id = any_id(&mut b);
    let n = SIZES[choice(SIZES.len())];
    let c = bytes::<300>();
    let c = &c[..n];
    let d = Der::new(id, <&ContentsRef>::from(c));
    same(&d, id, c);
    out(d.as_ref());

    let mut w = Der::with_id_length(id, n);
    check(w.contents().len() == n, "size of the contents to be filled in");
    AsMut::<[u8]>::as_mut(w.mut_contents()).copy_from_slice(c);
    same(&w, id, c);

    // Copies.
    let r: &DerRef = d.as_ref();
    same(&Der::from(r), id, c);
    same(&r.to_owned(), id, c);
    let r: &DerRef = d.borrow();
    same(&r.to_owned(), id, c);
    let k = d.clone();
    same(&k, id, c);
    let e = spec::element(id.as_ref(), c);
    let v = d.into_vec();
    check(v == e, "vector");
    same(&unsafe { Der::from_vec_unchecked(v) }, id, c);
    same(&unsafe { Der::from_bytes_unchecked(&e) }, id, c);
    same(&k, id, c);
    check(w.into_vec() == e, "vector");
    check(k.into_vec() == e, "vector");
    cover("done");
}

fn h_d03_iterator() {
    let mut b = [0u8; 4];
    let id = any_id(&mut b);
    let c = bytes::<300>();
    let n = SIZES[choice(SIZES.len())];
    let c = &c[..n];
    // 0 to 3 chunks, cut anywhere interesting.
    let chunks: Vec<&[u8]> = match choice(4) {
        0 => {
            assume(n == 0);
            vec![]
        }
        1 => vec![c],
        2 => {
            let k = [0, 1, n / 2, n][choice(4)].min(n);
            vec![&c[..k], &c[k..]]
        }
        _ => {
            let k = n / 3;
            vec![&c[..k], &[], &c[k..]]
        }
    };
    let d = Der::from_id_iterator(id, chunks.iter());
    same(&d, id, c);
    cover("done");
}

/// Conversions with a fixed identifier.
fn h_d03_primitive() {
    let c = bytes::<300>();
    let n = SIZES[choice(SIZES.len())];
    let c = &c[..n];
    same(&Der::from(c), IdRef::octet_string(), c);
    let mut t = c.to_vec();
    for o in t.iter_mut() {
        *o &= 0x7f;
    }
    same(&Der::from(unsafe { std::str::from_utf8_unchecked(&t) }), IdRef::utf8_string(), &t);
    let v = choice(2) == 1;
    let o = [if v { 0xff } else { 0 }];
    same(&Der::from(v), IdRef::boolean(), &o);
    check(AsRef::<[u8]>::as_ref(DerRef::boolean(v)) == [1, 1, o[0]], "predefined boolean");
    let d = Der::from(DerRef::boolean(v));
    same(&d, IdRef::boolean(), &o);
    cover("done");
}

/// The boundary between two and three octets of length.
fn h_d03_two_octets() {
    alloc_limit(70000);
    let n = [65535usize, 65536][choice(2)];
    let mut c = vec![0u8; n];
    let x = bytes::<3>();
    c[0] = x[0];
    c[n / 2] = x[1];
    c[n - 1] = x[2];
    let d = Der::new(IdRef::octet_string(), <&ContentsRef>::from(&c[..]));
    let o: &[u8] = d.as_ref();
    let h: &[u8] = if n == 65535 { &[4, 0x82, 0xff, 0xff] } else { &[4, 0x83, 1, 0, 0] };
    check(o.len() == h.len() + n, "size");
    check(&o[..h.len()] == h, "identifier and length");
    let c2: &[u8] = d.contents().as_ref();
    check((c2.len() == n) & (c2.as_ptr() == o[h.len()..].as_ptr()), "contents");
    check((c2[0] == x[0]) & (c2[n / 2] == x[1]) & (c2[n - 1] == x[2]), "contents octets");
    check((c2[1] == 0) & (c2[n - 2] == 0), "contents octets");
    check(d.length() == Length::Definite(n), "length");
    cover("done");
}

/// Many chunks from an iterator that does not know how many there are.
fn h_d03_chunks() {
    let n = [4, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256][choice(13)];
    let c = bytes::<256>();
    let c = &c[..n];
    let id = [IdRef::sequence(), IdRef::octet_string()][choice(2)];
    let k = 1 + choice(3);
    let chunks = c.chunks(k).flat_map(|x| [&x[..0], x]).filter(|x| (x.len() > 0) | (k == 2));
    same(&Der::from_id_iterator(id, chunks), id, c);
    cover("done");
}
