//! Editing DER elements.

use crate::spec;
use crate::sym::*;
use bsn1::{ContentsRef, Der, IdRef};

entries!(h_d04_edit, h_d04_sequence, h_d04_large, h_d04_jump);

fn same(d: &Der, id: &[u8], c: &[u8]) {
    let e = spec::element(id, c);
    let o: &[u8] = d.as_ref();
    check(o.len() == e.len(), "size");
    check(o == &e[..], "octets");
}

const START: [usize; 14] = [0, 1, 19, 20, 21, 22, 23, 126, 127, 128, 129, 254, 255, 256];

/// One edit from any starting size.
fn h_d04_edit() {
    let ids: [&[u8]; 3] = [&[0x04], &[0x7f, 0x55], &[0xdf, 0x81, 0x02]];
    let id = ids[choice(3)];
    let c = bytes::<256>();
    let n = START[choice(START.len())];
    let mut want = c[..n].to_vec();
    let mut d = Der::new(unsafe { IdRef::from_bytes_unchecked(id) }, <&ContentsRef>::from(&c[..n]));
    match choice(3) {
        0 => {
            let x = u8();
            d.push(x);
            want.push(x);
            cover("push");
        }
        1 => {
            let x = bytes::<260>();
            let k = [0, 1, 2, 22, 23, 105, 106, 107, 127, 128, 232, 233, 255, 256][choice(14)];
            d.extend_from_slice(&x[..k]);
            want.extend_from_slice(&x[..k]);
            cover("extend");
        }
        _ => {
            let k = [0usize, 1, 18, 19, 20, 21, 22, 126, 127, 128, 129, 254, 255, 256, usize::MAX][choice(15)];
            d.truncate(k);
            want.truncate(k);
            if k < n {
                cover("shortened");
            } else {
                cover("unchanged");
            }
        }
    }
    same(&d, id, &want);
    out(d.as_ref());
    // The element is whole: it can be copied, grown again and turned into a vector.
    let e = d.clone();
    d.push(0x5a);
    check(AsRef::<[u8]>::as_ref(&e) == &spec::element(id, &want)[..], "copy");
    want.push(0x5a);
    same(&d, id, &want);
    check(d.into_vec() == spec::element(id, &want), "vector");
}

/// Sequences of edits.
fn h_d04_sequence() {
    let id: &[u8] = &[0x30];
    let x = bytes::<140>();
    let n = [0usize, 20, 126][choice(3)];
    let mut want = x[..n].to_vec();
    let mut d = Der::new(IdRef::sequence(), <&ContentsRef>::from(&x[..n]));
    for _ in 0..5 {
        match choice(6) {
            0 => {
                let y = u8();
                d.push(y);
                want.push(y);
            }
            1 => {
                d.extend_from_slice(&x[..3]);
                want.extend_from_slice(&x[..3]);
            }
            2 => {
                d.extend_from_slice(&x[5..5 + 108]);
                want.extend_from_slice(&x[5..5 + 108]);
            }
            3 => {
                d.truncate(127);
                want.truncate(127);
            }
            4 => {
                let k = want.len().saturating_sub(1);
                d.truncate(k);
                want.truncate(k);
            }
            _ => {
                d.truncate(21);
                want.truncate(21);
            }
        }
        same(&d, id, &want);
    }
    cover("done");
}

/// Edits across the boundary between two and three octets of length.
fn h_d04_large() {
    alloc_limit(200000);
    let n = [65534usize, 65535, 65536][choice(3)];
    let mut c = vec![0u8; n];
    let x = bytes::<4>();
    c[0] = x[0];
    c[n - 1] = x[1];
    let mut d = Der::new(IdRef::octet_string(), <&ContentsRef>::from(&c[..]));
    match choice(3) {
        0 => {
            d.push(x[2]);
            c.push(x[2]);
        }
        1 => {
            d.extend_from_slice(&x);
            c.extend_from_slice(&x);
        }
        _ => {
            let k = n - 1 - choice(3);
            d.truncate(k);
            c.truncate(k);
        }
    }
    let o: &[u8] = d.as_ref();
    let l = spec::make_length(c.len());
    check(o.len() == 1 + l.len() + c.len(), "size");
    check(o[0] == 4 && &o[1..1 + l.len()] == &l[..], "identifier and length");
    check(&o[1 + l.len()..] == &c[..], "contents");
    cover("done");
}

/// The length octets grow or shrink by several octets at once.
fn h_d04_jump() {
    alloc_limit(200000);
    const SMALL: [usize; 8] = [0, 1, 19, 20, 127, 128, 255, 256];
    let (small, large) = (SMALL[choice(8)], [300usize, 65535, 65536, 70000][choice(4)]);
    let x = bytes::<4>();
    let mut c = vec![7u8; large];
    c[0] = x[0];
    c[large - 1] = x[1];
    c[small] = x[2];
    c[small.saturating_sub(1)] = x[3];
    let mut d;
    if choice(2) == 0 {
        d = Der::new(IdRef::octet_string(), <&ContentsRef>::from(&c[..small]));
        d.extend_from_slice(&c[small..]);
    } else {
        d = Der::new(IdRef::octet_string(), <&ContentsRef>::from(&c[..]));
        d.truncate(small);
        c.truncate(small);
    }
    let o: &[u8] = d.as_ref();
    let l = spec::make_length(c.len());
    check(o.len() == 1 + l.len() + c.len(), "size");
    check(o[0] == 4 && &o[1..1 + l.len()] == &l[..], "identifier and length");
    check(&o[1 + l.len()..] == &c[..], "contents");
    cover("done");
}
