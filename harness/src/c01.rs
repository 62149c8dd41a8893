//! Integers to contents.

use crate::spec;
use crate::sym::*;
use bsn1::{Ber, Contents, Der};

entries!(
    h_c01_u8, h_c01_u16, h_c01_u32, h_c01_u64, h_c01_u128, h_c01_usize, h_c01_i8, h_c01_i16, h_c01_i32,
    h_c01_i64, h_c01_i128, h_c01_isize,
);

fn same(c: &[u8], der: &[u8], ber: &[u8], e: &[u8]) {
    check(c.len() == e.len(), "number of contents octets");
    check(c == e, "contents octets");
    let mut w = [0u8; 19];
    w[0] = 2;
    w[1] = e.len() as u8;
    w[2..2 + e.len()].copy_from_slice(e);
    let w = &w[..2 + e.len()];
    check(der == w, "DER element");
    check(ber == w, "BER element");
    out(c);
}

macro_rules! unsigned {
    ($f:ident, $t:ty, $n:expr) => {
        fn $f() {
            let v = <$t>::from_ne_bytes(bytes());
            let (e, k) = spec::make_uint(v as u128);
            let c = Contents::from(v);
            same(c.as_ref(), Der::from(v).as_ref(), Ber::from(v).as_ref(), &e[17 - k..]);
            if k == 1 {
                cover("one octet");
            }
            if k == $n + 1 {
                cover("longest");
            }
        }
    };
}

macro_rules! signed {
    ($f:ident, $t:ty, $n:expr) => {
        fn $f() {
            let v = <$t>::from_ne_bytes(bytes());
            let (e, k) = spec::make_int(v as i128);
            let c = Contents::from(v);
            same(c.as_ref(), Der::from(v).as_ref(), Ber::from(v).as_ref(), &e[16 - k..]);
            if k == 1 {
                cover("one octet");
            }
            if k == $n {
                cover("longest");
            }
        }
    };
}

unsigned!(h_c01_u8, u8, 1);
unsigned!(h_c01_u16, u16, 2);
unsigned!(h_c01_u32, u32, 4);
unsigned!(h_c01_u64, u64, 8);
unsigned!(h_c01_u128, u128, 16);
unsigned!(h_c01_usize, usize, 8);
signed!(h_c01_i8, i8, 1);
signed!(h_c01_i16, i16, 2);
signed!(h_c01_i32, i32, 4);
signed!(h_c01_i64, i64, 8);
signed!(h_c01_i128, i128, 16);
signed!(h_c01_isize, isize, 8);
