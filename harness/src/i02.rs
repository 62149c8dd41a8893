//! Changes to parts of an identifier.

use crate::spec;
use crate::sym::*;
use bsn1::{ClassTag, Id, IdRef, PCTag, TagNumber};

entries!(h_i02_number, h_i02_chain, h_i02_borrowed);

fn class(c: usize) -> ClassTag {
    [ClassTag::Universal, ClassTag::Application, ClassTag::ContextSpecific, ClassTag::Private][c]
}

fn flag(c: usize) -> PCTag {
    [PCTag::Primitive, PCTag::Constructed][c]
}

fn same(id: &Id, c: usize, p: usize, n: u128) {
    let (e, k) = spec::make_id(c as u8, p == 1, n);
    let o: &[u8] = id.as_ref();
    check(o.len() == k, "number of octets");
    check(o == &e[20 - k..], "octets");
}

/// One change of number, any old and any new number.
fn h_i02_number() {
    let c = choice(4);
    let p = [0, 1, 1, 0][c];
    let (n, m) = (u128(), u128());
    let mut id = Id::new(class(c), flag(p), n.into());
    let before = id.len();
    id.set_number(TagNumber::from(m));
    same(&id, c, p, m);
    match id.number() {
        Ok(x) => check(x.get() == m, "number read back"),
        Err(_) => fail("number refused"),
    }
    out(id.as_ref());
    if before < id.len() {
        cover("grew");
    }
    if before > id.len() {
        cover("shrank");
    }
}

/// Sequences of changes.
fn h_i02_chain() {
    let (mut c, mut p) = (2, choice(2));
    let mut n = u16() as u128;
    let mut id = Id::new(class(c), flag(p), n.into());
    for _ in 0..3 {
        match choice(4) {
            0 => {
                c = choice(4);
                id.set_class(class(c));
            }
            1 => {
                p = choice(2);
                id.set_pc(flag(p));
            }
            2 => {
                n = u16() as u128 + 100;
                id.set_number(n.into());
            }
            _ => {
                n = u8() as u128 % 32;
                id.set_number(n.into());
            }
        }
        same(&id, c, p, n);
    }
    cover("done");
}

/// Class and flag of a borrowed identifier, in a larger buffer.
fn h_i02_borrowed() {
    let (c, p) = (choice(4), choice(2));
    let n = u128();
    let (e, k) = spec::make_id(c as u8, p == 1, n);
    let mut buf = [0x5au8; 22];
    buf[1..1 + k].copy_from_slice(&e[20 - k..]);
    let (d, q) = (choice(4), choice(2));
    let which = choice(3);
    {
        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut buf[1..1 + k]) };
        if which != 1 {
            id.set_class(class(d));
        }
        if which != 0 {
            id.set_pc(flag(q));
        }
        check(id.len() == k, "size changed");
        check(id.class() == if which != 1 { class(d) } else { class(c) }, "class");
        check(id.pc() == if which != 0 { flag(q) } else { flag(p) }, "flag");
    }
    let (f, j) = spec::make_id(
        if which != 1 { d } else { c } as u8,
        if which != 0 { q } else { p } == 1,
        n,
    );
    check(j == k, "oracle");
    check(&buf[1..1 + k] == &f[20 - k..], "octets");
    check((buf[0] == 0x5a) & (buf[1 + k] == 0x5a), "neighbouring octets");
    cover("done");
}
