//! BER deserialization of booleans, integers, text and octet strings.

use crate::model::*;
use crate::spec;
use crate::sym::*;
use bsn1_serde::de::Deserialize;
use bsn1_serde::OctetString;

entries!(
    h_s05_bool, h_s05_i8, h_s05_u8, h_s05_i16, h_s05_u16, h_s05_i32, h_s05_u32, h_s05_i64, h_s05_u64, h_s05_i128,
    h_s05_u128, h_s05_isize, h_s05_usize, h_s05_bool_long, h_s05_int_id, h_s05_length,
    h_s05_indefinite, h_s05_indefinite_text, h_s05_strings, h_s05_loose_length
);

/// Any identifier octet and contents of 0 to N octets.
fn element<const N: usize>() -> Vec<u8> {
    let b = bytes::<N>();
    let id = u8();
    assume(id & 0x1f != 0x1f);
    let n = choice(N + 1);
    spec::element(&[id], &b[..n])
}

fn run<T: Model + Deserialize, const N: usize>() {
    decode_ber::<T>(&element::<N>());
}

fn h_s05_bool() {
    run::<bool, 4>();
}
fn h_s05_i8() {
    run::<i8, 18>();
}
fn h_s05_u8() {
    run::<u8, 18>();
}
fn h_s05_i16() {
    run::<i16, 18>();
}
fn h_s05_u16() {
    run::<u16, 18>();
}
fn h_s05_i32() {
    run::<i32, 18>();
}
fn h_s05_u32() {
    run::<u32, 18>();
}
fn h_s05_i64() {
    run::<i64, 18>();
}
fn h_s05_u64() {
    run::<u64, 18>();
}
fn h_s05_i128() {
    run::<i128, 18>();
}
fn h_s05_u128() {
    run::<u128, 18>();
}
fn h_s05_isize() {
    run::<isize, 18>();
}
fn h_s05_usize() {
    run::<usize, 18>();
}

/// Identifiers of several octets.
fn h_s05_int_id() {
    let b = bytes::<6>();
    match choice(3) {
        0 => decode_ber::<u16>(&b),
        1 => decode_ber::<i64>(&b),
        _ => decode_ber::<bool>(&b),
    }
}

fn h_s05_bool_long() {
    let n = [5, 127, 128, 200, 256][choice(5)];
    let mut v = vec![0xff; n];
    v[0] = u8();
    v[n - 1] = u8();
    decode_ber::<bool>(&spec::element(&[1], &v));
}

/// Integers far too long.
fn h_s05_length() {
    let n = [20, 127, 128, 256][choice(4)];
    let mut v = vec![u8(); n];
    v[0] = u8();
    v[1] = u8();
    let e = spec::element(&[2], &v);
    match choice(3) {
        0 => decode_ber::<u8>(&e),
        1 => decode_ber::<u128>(&e),
        _ => decode_ber::<i128>(&e),
    }
}

fn any_type(b: &[u8]) {
    match choice(13) {
        0 => decode_ber::<bool>(b),
        1 => decode_ber::<i8>(b),
        2 => decode_ber::<u8>(b),
        3 => decode_ber::<i16>(b),
        4 => decode_ber::<u16>(b),
        5 => decode_ber::<i32>(b),
        6 => decode_ber::<u32>(b),
        7 => decode_ber::<i64>(b),
        8 => decode_ber::<u64>(b),
        9 => decode_ber::<i128>(b),
        10 => decode_ber::<u128>(b),
        11 => decode_ber::<isize>(b),
        _ => decode_ber::<usize>(b),
    }
}

/// The indefinite length around any elements.
fn h_s05_indefinite() {
    let b = bytes::<8>();
    let id = u8();
    let n = [2, 4, 5, 6, 7, 8][choice(6)];
    let mut v = vec![id, 0x80];
    v.extend_from_slice(&b[..n]);
    any_type(&v);
}

fn h_s05_indefinite_text() {
    let b = bytes::<8>();
    let id = u8();
    let n = [2, 4, 5, 6, 7, 8][choice(6)];
    let mut v = vec![id, 0x80];
    v.extend_from_slice(&b[..n]);
    if choice(2) == 0 {
        decode_ber::<String>(&v);
    } else {
        decode_ber::<OctetString>(&v);
    }
}

fn h_s05_strings() {
    let e = element::<3>();
    if choice(2) == 0 {
        decode_ber::<String>(&e);
    } else {
        decode_ber::<OctetString>(&e);
    }
}

/// Every input of 4 octets, whatever its length says.
fn h_s05_loose_length() {
    let b = bytes::<4>();
    any_type(&b);
}
