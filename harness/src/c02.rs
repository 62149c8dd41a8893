//! Contents to integers.

use crate::spec;
use crate::sym::*;
use bsn1::ContentsRef;

entries!(
    h_c02_u8, h_c02_u16, h_c02_u32, h_c02_u64, h_c02_u128, h_c02_usize, h_c02_i8, h_c02_i16, h_c02_i32,
    h_c02_i64, h_c02_i128, h_c02_isize, h_c02_long,
);

const N: usize = 18;

macro_rules! decode {
    ($f:ident, $t:ty, $signed:expr) => {
        fn $f() {
            let b = bytes::<N>();
            let n = choice(N + 1);
            let c = <&ContentsRef>::from(&b[..n]);
            match (spec::int(&b[..n], $signed, <$t>::BITS), c.to_integer::<$t>()) {
                (Ok(v), Ok(w)) => {
                    check(v as $t == w, "value");
                    check(unsafe { c.to_integer_unchecked::<$t>() } == w, "unchecked value");
                    out(&w.to_le_bytes());
                    cover("accepted");
                }
                (Err(k), Err(e)) => {
                    check(k == spec::kind(&e), "kind of error");
                    match k {
                        spec::OVERFLOW => cover("overflow"),
                        spec::REDUNDANT => cover("redundant"),
                        _ => cover("empty"),
                    }
                }
                (Ok(_), Err(_)) => fail("refused"),
                (Err(_), Ok(_)) => fail("accepted"),
            }
        }
    };
}

decode!(h_c02_u8, u8, false);
decode!(h_c02_u16, u16, false);
decode!(h_c02_u32, u32, false);
decode!(h_c02_u64, u64, false);
decode!(h_c02_u128, u128, false);
decode!(h_c02_usize, usize, false);
decode!(h_c02_i8, i8, true);
decode!(h_c02_i16, i16, true);
decode!(h_c02_i32, i32, true);
decode!(h_c02_i64, i64, true);
decode!(h_c02_i128, i128, true);
decode!(h_c02_isize, isize, true);

macro_rules! refused {
    ($t:ty, $b:expr, $signed:expr) => {
        match (spec::int($b, $signed, <$t>::BITS), <&ContentsRef>::from($b).to_integer::<$t>()) {
            (Err(k), Err(e)) => {
                check(k == spec::kind(&e), "kind of error");
                if k == spec::OVERFLOW {
                    cover("overflow");
                } else {
                    cover("redundant");
                }
            }
            _ => fail("accepted"),
        }
    };
}

/// More octets than any type has.
fn h_c02_long() {
    let n = [19usize, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 260, 264, 272, 300][choice(20)];
    let b = bytes::<300>();
    let b = &b[..n];
    match choice(12) {
        0 => refused!(u8, b, false),
        1 => refused!(u16, b, false),
        2 => refused!(u32, b, false),
        3 => refused!(u64, b, false),
        4 => refused!(u128, b, false),
        5 => refused!(usize, b, false),
        6 => refused!(i8, b, true),
        7 => refused!(i16, b, true),
        8 => refused!(i32, b, true),
        9 => refused!(i64, b, true),
        10 => refused!(i128, b, true),
        _ => refused!(isize, b, true),
    }
}
