//! DER deserialization of booleans and integers.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1_serde::de::Deserialize;

entries!(
    h_s04_bool, h_s04_i8, h_s04_u8, h_s04_i16, h_s04_u16, h_s04_i32, h_s04_u32, h_s04_i64, h_s04_u64, h_s04_i128,
    h_s04_u128, h_s04_isize, h_s04_usize, h_s04_bool_long, h_s04_int_id, h_s04_length
);

/// Any identifier octet and contents of 0 to N octets.
fn element<const N: usize>() -> Vec<u8> {
    let b = bytes::<N>();
    let id = u8();
    assume(id & 0x1f != 0x1f);
    let n = choice(N + 1);
    spec::element(&[id], &b[..n])
}

fn run<T: Model + Deserialize, const N: usize>() {
    decode_der::<T>(&element::<N>());
}

fn h_s04_bool() {
    run::<bool, 4>();
}
fn h_s04_i8() {
    run::<i8, 18>();
}
fn h_s04_u8() {
    run::<u8, 18>();
}
fn h_s04_i16() {
    run::<i16, 18>();
}
fn h_s04_u16() {
    run::<u16, 18>();
}
fn h_s04_i32() {
    run::<i32, 18>();
}
fn h_s04_u32() {
    run::<u32, 18>();
}
fn h_s04_i64() {
    run::<i64, 18>();
}
fn h_s04_u64() {
    run::<u64, 18>();
}
fn h_s04_i128() {
    run::<i128, 18>();
}
fn h_s04_u128() {
    run::<u128, 18>();
}
fn h_s04_isize() {
    run::<isize, 18>();
}
fn h_s04_usize() {
    run::<usize, 18>();
}

/// Identifiers of several octets.
fn h_s04_int_id() {
    let b = bytes::<6>();
    match choice(3) {
        0 => decode_der::<u16>(&b),
        1 => decode_der::<i64>(&b),
        _ => decode_der::<bool>(&b),
    }
}

fn h_s04_bool_long() {
    let n = [5, 127, 128, 200, 256][choice(5)];
    let mut v = vec![0xff; n];
    v[0] = u8();
    v[n - 1] = u8();
    decode_der::<bool>(&spec::element(&[1], &v));
}

/// Integers far too long.
fn h_s04_length() {
    let n = [20, 127, 128, 256][choice(4)];
    let mut v = vec![u8(); n];
    v[0] = u8();
    v[1] = u8();
    let e = spec::element(&[2], &v);
    match choice(3) {
        0 => decode_der::<u8>(&e),
        1 => decode_der::<u128>(&e),
        _ => decode_der::<i128>(&e),
    }
}
