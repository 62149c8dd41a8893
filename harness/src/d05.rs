//! Changes in place.

use crate::spec;
use crate::sym::*;
use bsn1::{Ber, BerRef, ClassTag, ContentsRef, Der, DerRef, IdRef, Length, PCTag};

entries!(h_d05_der_borrowed, h_d05_ber_borrowed, h_d05_der_owned, h_d05_ber_owned, h_d05_long);

fn class(c: usize) -> ClassTag {
    [ClassTag::Universal, ClassTag::Application, ClassTag::ContextSpecific, ClassTag::Private][c]
}

fn flag(c: usize) -> PCTag {
    [PCTag::Primitive, PCTag::Constructed][c]
}

/// Applies one change to `$d` and returns the octets expected afterwards.
macro_rules! change {
    ($d:expr, $copy:expr, $i:expr, $h:expr, $t:expr) => {{
        let mut want = $copy;
        match choice(4) {
            0 => {
                let c = choice(4);
                $d.mut_id().set_class(class(c));
                want[0] = want[0] & 0x3f | (c as u8) << 6;
                cover("class");
            }
            1 => {
                let p = choice(2);
                if choice(2) == 0 {
                    $d.mut_id().set_pc(flag(p));
                } else {
                    $d.disassemble_mut().0.set_pc(flag(p));
                }
                want[0] = want[0] & 0xdf | (p as u8) << 5;
                cover("flag");
            }
            2 => {
                assume($t > $h);
                let k = choice($t - $h);
                let x = u8();
                $d.mut_contents()[k] = x;
                want[$h + k] = x;
                cover("contents");
            }
            _ => {
                let x = bytes::<12>();
                let (id, _, c) = $d.disassemble_mut();
                check(id.len() == $i, "identifier taken apart");
                check(c.len() == $t - $h, "contents taken apart");
                AsMut::<[u8]>::as_mut(c).copy_from_slice(&x[..$t - $h]);
                want[$h..$t].copy_from_slice(&x[..$t - $h]);
                cover("all contents");
            }
        }
        want
    }};
}

fn h_d05_der_borrowed() {
    let mut b = bytes::<12>();
    let copy = b;
    let base = b.as_ptr();
    let mut rest = &mut b[..];
    if let Ok(d) = DerRef::parse_mut(&mut rest) {
        let (i, l, n) = match spec::der(&copy) {
            Ok(x) => x,
            Err(_) => fail("accepted"),
        };
        {
            let (id, len, c) = d.disassemble_mut();
            check(AsRef::<[u8]>::as_ref(id).as_ptr() == base, "identifier");
            check(id.len() == i, "identifier");
            check(len == Length::Definite(n), "length");
            check(AsRef::<[u8]>::as_ref(c).as_ptr() == base.wrapping_add(i + l), "contents");
            check(c.len() == n, "contents");
        }
        let want = change!(d, copy, i, i + l, i + l + n);
        check(AsRef::<[u8]>::as_ref(d).len() == i + l + n, "size");
        check(d.length() == Length::Definite(n), "length afterwards");
        check(b == want, "octets");
    }
}

fn h_d05_ber_borrowed() {
    let mut b = bytes::<9>();
    let copy = b;
    let base = b.as_ptr();
    let mut rest = &mut b[..];
    if let Ok(d) = BerRef::parse_mut(&mut rest) {
        let t = match spec::ber_end(&copy, 0) {
            Ok(x) => x,
            Err(_) => fail("accepted"),
        };
        let (i, l, n) = match spec::id(&copy).and_then(|i| spec::length(&copy[i..]).map(|(n, l)| (i, l, n))) {
            Ok(x) => x,
            Err(_) => fail("oracle"),
        };
        {
            let (id, len, c) = d.disassemble_mut();
            check(AsRef::<[u8]>::as_ref(id).as_ptr() == base, "identifier");
            check(id.len() == i, "identifier");
            check(len.definite() == n, "length");
            check(AsRef::<[u8]>::as_ref(c).as_ptr() == base.wrapping_add(i + l), "contents");
            check(c.len() == t - i - l, "contents");
        }
        let want = change!(d, copy, i, i + l, t);
        check(AsRef::<[u8]>::as_ref(d).len() == t, "size");
        check(d.length().definite() == n, "length afterwards");
        check(b == want, "octets");
        if n.is_none() {
            cover("indefinite");
        }
    }
}

fn any_id(b: &mut [u8; 3]) -> &IdRef {
    let h = u8() & 0xe0;
    let k = choice(3) + 1;
    match k {
        1 => b[0] = h | u8() % 31,
        2 => *b = [h | 0x1f, 31 + u8() % 97, 0],
        _ => *b = [h | 0x1f, 0x80 | (1 + u8() % 127), u8() & 0x7f],
    }
    unsafe { IdRef::from_bytes_unchecked(&b[..k]) }
}

fn pad(o: &[u8]) -> [u8; 50] {
    let mut w = [0u8; 50];
    w[..o.len()].copy_from_slice(o);
    w
}

const SIZES: [usize; 5] = [0, 1, 9, 10, 12];

fn h_d05_der_owned() {
    let mut ib = [0; 3];
    let id = any_id(&mut ib);
    let n = SIZES[choice(5)];
    let c = bytes::<12>();
    let mut d = Der::new(id, <&ContentsRef>::from(&c[..n]));
    if choice(2) == 1 {
        // on the heap
        d = unsafe { Der::from_vec_unchecked(d.into_vec()) };
    }
    let t = AsRef::<[u8]>::as_ref(&d).len();
    let copy = pad(d.as_ref());
    let before = d.clone();
    let want = change!(d, copy, id.len(), id.len() + 1, t);
    let o: &[u8] = d.as_ref();
    check(o.len() == t, "size");
    check(o == &want[..t], "octets");
    check(AsRef::<[u8]>::as_ref(&before) == &copy[..t], "a copy changed");
}

fn h_d05_ber_owned() {
    let mut ib = [0; 3];
    let id = any_id(&mut ib);
    let n = SIZES[choice(5)];
    let c = bytes::<12>();
    let c = <&ContentsRef>::from(&c[..n]);
    let mut d = if choice(2) == 0 { Ber::new(id, c) } else { unsafe { Ber::new_indefinite(id, c) } };
    if choice(2) == 1 {
        d = unsafe { Ber::from_vec_unchecked(d.into_vec()) };
    }
    let t = AsRef::<[u8]>::as_ref(&d).len();
    let copy = pad(d.as_ref());
    let before = d.clone();
    let want = change!(d, copy, id.len(), id.len() + 1, t);
    let o: &[u8] = d.as_ref();
    check(o.len() == t, "size");
    check(o == &want[..t], "octets");
    check(AsRef::<[u8]>::as_ref(&before) == &copy[..t], "a copy changed");
}

macro_rules! long {
    ($d:expr, $o:expr, $i:expr, $h:expr) => {{
        let mut want: Vec<u8> = $o.to_vec();
        let n = want.len() - $h;
        let k = [0, 1, n / 2, n - 1][choice(4)];
        let x = u8();
        match choice(3) {
            0 => {
                let (id, _, c) = $d.disassemble_mut();
                check((id.len() == $i) & (c.len() == n), "taken apart");
                c[k] = x;
                want[$h + k] = x;
            }
            1 => {
                check($d.mut_contents().len() == n, "contents");
                $d.mut_contents()[k] = x;
                want[$h + k] = x;
            }
            _ => {
                check($d.mut_id().len() == $i, "identifier");
                let c = choice(4);
                $d.mut_id().set_class(class(c));
                want[0] = want[0] & 0x3f | (c as u8) << 6;
            }
        }
        want
    }};
}

/// Length octets of every size up to three, owned and borrowed.
fn h_d05_long() {
    alloc_limit(140000);
    let n = [127usize, 128, 129, 255, 256, 257, 65535, 65536][choice(8)];
    let ids: [&[u8]; 2] = [&[0x24], &[0xff, 0x81, 0x02]];
    let id = ids[choice(2)];
    let mut c = vec![0u8; n];
    c[0] = u8();
    c[n - 1] = u8();
    let mut e = id.to_vec();
    let indefinite = choice(2) == 1;
    let l = if indefinite { vec![0x80] } else { spec::make_length(n) };
    e.extend_from_slice(&l);
    e.extend_from_slice(&c);
    let h = id.len() + l.len();
    let orig = e.clone();
    match choice(4) {
        0 => {
            let d = unsafe { BerRef::from_mut_bytes_unchecked(&mut e[..]) };
            let want = long!(d, orig, id.len(), h);
            check(e == want, "octets, borrowed BER");
        }
        1 => {
            let mut d = unsafe { Ber::from_bytes_unchecked(&e[..]) };
            let want = long!(d, orig, id.len(), h);
            check(AsRef::<[u8]>::as_ref(&d) == &want[..], "octets, BER");
            check(e == orig, "another copy changed");
        }
        2 => {
            assume(!indefinite);
            let d = unsafe { DerRef::from_mut_bytes_unchecked(&mut e[..]) };
            let want = long!(d, orig, id.len(), h);
            check(e == want, "octets, borrowed DER");
        }
        _ => {
            assume(!indefinite);
            let mut d = unsafe { Der::from_bytes_unchecked(&e[..]) };
            let want = long!(d, orig, id.len(), h);
            check(AsRef::<[u8]>::as_ref(&d) == &want[..], "octets, DER");
            check(e == orig, "another copy changed");
        }
    }
    cover("done");
}
