//! Serialization of booleans and integers.

use crate::model::value;
use crate::sym::*;

entries!(
    h_s01_bool, h_s01_i8, h_s01_u8, h_s01_i16, h_s01_u16, h_s01_i32, h_s01_u32, h_s01_i64, h_s01_u64, h_s01_i128,
    h_s01_u128, h_s01_isize, h_s01_usize
);

fn h_s01_bool() {
    value(&bool());
}
fn h_s01_i8() {
    value(&(u8() as i8));
}
fn h_s01_u8() {
    value(&u8());
}
fn h_s01_i16() {
    value(&(u16() as i16));
}
fn h_s01_u16() {
    value(&u16());
}
fn h_s01_i32() {
    value(&(u32() as i32));
}
fn h_s01_u32() {
    value(&u32());
}
fn h_s01_i64() {
    value(&(u64() as i64));
}
fn h_s01_u64() {
    value(&u64());
}
fn h_s01_i128() {
    value(&(u128() as i128));
}
fn h_s01_u128() {
    value(&u128());
}
fn h_s01_isize() {
    value(&(usize() as isize));
}
fn h_s01_usize() {
    value(&usize());
}
