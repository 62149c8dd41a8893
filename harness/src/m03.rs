//! Identifier attributes.

use crate::model::*;
use crate::sym::*;
use crate::{model_enum, model_struct, spec};
use bsn1_serde::{Deserialize, Serialize};

entries!(h_m03_struct, h_m03_decode, h_m03_decode_near, h_m03_enum, h_m03_enum_decode, h_m03_enum_near);

macro_rules! ids {
    ($( $n:ident [$($attr:tt)*] $class:literal $constructed:literal $num:literal; )*) => {
        $(
            #[derive(Serialize, Deserialize)]
            #[bsn1_serde($($attr)*)]
            struct $n(u8);
            model_struct!([] $n, make($class, $constructed, $num)[..], $n { 0: u8 });
        )*

        #[derive(PartialEq, Serialize, Deserialize)]
        enum All {
            $( #[bsn1_serde($($attr)*)] $n(u8), )*
        }
        model_enum!(All { $( $n (make($class, $constructed, $num)) { 0 a: u8 } )* });

        const COUNT: usize = [$(stringify!($n)),*].len();

        fn nth(i: usize, x: u8) -> All {
            let mut k = 0;
            $( if i == k { return All::$n(x) } k += 1; )*
            let _ = k;
            fail("harness")
        }

        fn id_of(i: usize) -> Vec<u8> {
            let mut k = 0;
            $( if i == k { return make($class, $constructed, $num) } k += 1; )*
            let _ = k;
            fail("harness")
        }

        fn struct_value(i: usize) {
            let mut k = 0;
            $( if i == k { return value(&$n(u8())) } k += 1; )*
            let _ = k;
        }

        fn struct_decode(i: usize, e: &[u8]) {
            let mut k = 0;
            $( if i == k { return both::<$n>(e) } k += 1; )*
            let _ = k;
        }
    };
}

/// Identifier octets from X.690 8.1.2.
fn make(class: u8, constructed: bool, num: u128) -> Vec<u8> {
    let (b, k) = spec::make_id(class, constructed, num);
    b[20 - k..].to_vec()
}

ids! {
    Eoc [id = EOC] 0 false 0;
    Boolean [id = Boolean] 0 false 1;
    Integer [id = Integer] 0 false 2;
    Bits [id = BitString] 0 false 3;
    Octets [id = OctetString] 0 false 4;
    Null [id = Null] 0 false 5;
    Real [id = Real] 0 false 9;
    Text [id = UTF8String] 0 false 12;
    Sequence [id = Sequence] 0 true 16;
    Set [id = Set] 0 true 17;
    Universal [tag_class = UNIVERSAL, tag_num = 29] 0 true 29;
    Application [tag_class = APPLICATION] 1 true 16;
    Context [tag_class = CONTEXT_SPECIFIC] 2 true 16;
    Private [tag_class = PRIVATE] 3 true 16;
    Primitive [tag_pc = PRIMITIVE] 0 false 16;
    Constructed [id = Boolean, tag_pc = CONSTRUCTED] 0 true 1;
    TextPrivate [id = UTF8String, tag_class = PRIVATE] 3 false 12;
    SetContext [id = Set, tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE] 2 false 17;
    Every [id = Integer, tag_class = APPLICATION, tag_pc = CONSTRUCTED, tag_num = 4] 1 true 4;
    Zero [tag_class = PRIVATE, tag_num = 0] 3 true 0;
    Thirty [tag_class = PRIVATE, tag_num = 30] 3 true 30;
    ThirtyOne [tag_class = PRIVATE, tag_num = 31] 3 true 31;
    ThirtyTwo [id = Integer, tag_class = PRIVATE, tag_num = 32] 3 false 32;
    OneOctet [tag_num = 0x7f] 0 true 127;
    TwoOctets [tag_num = 128] 0 true 128;
    TwoBinary [tag_class = APPLICATION, tag_num = 0b10000001] 1 true 129;
    TwoMax [tag_num = 0x3fff] 0 true 16383;
    Three [tag_num = 0o40000] 0 true 16384;
    ThreeMax [tag_class = CONTEXT_SPECIFIC, tag_num = 2097151] 2 true 2097151;
    Four [tag_class = CONTEXT_SPECIFIC, tag_num = 2097152] 2 true 2097152;
    Zeros [tag_class = CONTEXT_SPECIFIC, tag_num = 0x10000000] 2 true 0x10000000;
    Word [tag_pc = PRIMITIVE, tag_num = 0xffffffffffffffff] 0 false 0xffffffffffffffff;
    Big [tag_class = PRIVATE, tag_num = 0x40000000000000000000000000000000] 3 true 0x40000000000000000000000000000000;
    Max [id = Set, tag_num = 340282366920938463463374607431768211455] 0 true 0xffffffffffffffffffffffffffffffff;
}

fn h_m03_struct() {
    struct_value(choice(COUNT));
}

fn contents() -> Vec<u8> {
    let x = u8();
    assume(x < 0x80);
    vec![2, 1, x]
}

/// Any identifier of up to 5 octets.
fn any_id() -> Vec<u8> {
    let b = bytes::<5>();
    let n = 1 + choice(5);
    assume(spec::id(&b[..n]) == Ok(n));
    b[..n].to_vec()
}

fn h_m03_decode() {
    let i = choice(COUNT);
    struct_decode(i, &spec::element(&any_id(), &contents()));
}

/// The right identifier with one octet replaced by anything.
fn near(i: usize) -> Vec<u8> {
    let mut v = id_of(i);
    let p = choice(v.len());
    v[p] = u8();
    assume(spec::id(&v) == Ok(v.len()));
    v
}

fn h_m03_decode_near() {
    let i = choice(COUNT);
    struct_decode(i, &spec::element(&near(i), &contents()));
}

fn h_m03_enum() {
    let i = choice(COUNT);
    value(&nth(i, u8()));
}

fn h_m03_enum_decode() {
    both::<All>(&spec::element(&any_id(), &contents()));
}

fn h_m03_enum_near() {
    both::<All>(&spec::element(&near(choice(COUNT)), &contents()));
}
