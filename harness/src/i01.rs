//! Identifiers from class, flag and number.

use crate::spec;
use crate::sym::*;
use bsn1::{ClassTag, Id, IdRef, PCTag, TagNumber};

entries!(h_i01_new, h_i01_number_types, h_i01_constants);

pub fn class(c: usize) -> ClassTag {
    match c {
        0 => ClassTag::Universal,
        1 => ClassTag::Application,
        2 => ClassTag::ContextSpecific,
        _ => ClassTag::Private,
    }
}

pub fn flag(c: bool) -> PCTag {
    if c {
        PCTag::Constructed
    } else {
        PCTag::Primitive
    }
}

fn h_i01_new() {
    let c = choice(4);
    let p = choice(2) == 1;
    let n = u128();
    let (e, k) = spec::make_id(c as u8, p, n);
    let e = &e[20 - k..];
    let id = Id::new(class(c), flag(p), TagNumber::from(n));
    let o: &[u8] = id.as_ref();
    check(o.len() == k, "number of octets");
    check(o == e, "octets");
    check(id.len() == k, "len()");
    check(id.class() as u8 == class(c) as u8, "class");
    check(id.pc() as u8 == flag(p) as u8, "flag");
    check(
        (id.is_universal() == (c == 0))
            & (id.is_application() == (c == 1))
            & (id.is_context_specific() == (c == 2))
            & (id.is_private() == (c == 3)),
        "class queries",
    );
    check((id.is_primitive() == !p) & (id.is_constructed() == p), "flag queries");
    match id.number() {
        Ok(m) => check(m.get() == n, "number"),
        Err(_) => fail("number refused"),
    }
    out(o);
    if k == 1 {
        cover("short form");
    }
    if k == 2 {
        cover("one group");
    }
    if k == 20 {
        cover("nineteen groups");
    }
}

fn h_i01_number_types() {
    let x = u64();
    check(TagNumber::from(x as u8).get() == x as u8 as u128, "from u8");
    check(TagNumber::from(x as u16).get() == x as u16 as u128, "from u16");
    check(TagNumber::from(x as u32).get() == x as u32 as u128, "from u32");
    check(TagNumber::from(x).get() == x as u128, "from u64");
    check(TagNumber::from(x as usize).get() == x as u128, "from usize");
    let y = u128();
    check(TagNumber::from(y).get() == y, "from u128");
    check((ClassTag::Universal as u8 == 0) & (ClassTag::Application as u8 == 0x40), "class values");
    check((ClassTag::ContextSpecific as u8 == 0x80) & (ClassTag::Private as u8 == 0xc0), "class values");
    check((PCTag::Primitive as u8 == 0) & (PCTag::Constructed as u8 == 0x20), "flag values");
}

fn h_i01_constants() {
    fn is(id: &IdRef, o: u8) {
        let b: &[u8] = id.as_ref();
        check(b == [o], "octets of a predefined identifier");
        check(id.len() == 1, "size of a predefined identifier");
        check(id.is_universal(), "class of a predefined identifier");
        check(id.is_constructed() == (o & 0x20 != 0), "flag of a predefined identifier");
        match id.number() {
            Ok(n) => check(n.get() == (o & 0x1f) as u128, "number of a predefined identifier"),
            Err(_) => fail("number of a predefined identifier"),
        }
    }
    is(IdRef::eoc(), 0x00);
    is(IdRef::boolean(), 0x01);
    is(IdRef::integer(), 0x02);
    is(IdRef::octet_string(), 0x04);
    is(IdRef::octet_string_constructed(), 0x24);
    is(IdRef::null(), 0x05);
    is(IdRef::real(), 0x09);
    is(IdRef::utf8_string(), 0x0c);
    is(IdRef::utf8_string_constructed(), 0x2c);
    is(IdRef::sequence(), 0x30);
    is(IdRef::set(), 0x31);
    cover("all");
}
