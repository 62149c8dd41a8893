//! What a harness may ask of the machinery around it.
//!
//! Under the symbolic engine these functions are intrinsics; in the replay build they are ordinary
//! functions that feed recorded input octets to the same harness code.

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: i32);
        pub fn sym_fail(p: *const u8, n: usize) -> !;
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_out(p: *const u8, n: usize);
        pub fn sym_concretize(x: u64) -> u64;
        pub fn sym_limit(n: u64);
        pub fn sym_fail_alloc(n: u64);
        pub fn sym_live() -> u64;
    }
}
#[cfg(feature = "replay")]
use crate::replay_rt as imp;

/// `N` arbitrary octets.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    if N > 0 {
        unsafe { imp::sym_bytes(b.as_mut_ptr(), N) };
    }
    b
}

pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_ne_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_ne_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_ne_bytes(bytes())
}
pub fn u128() -> u128 {
    u128::from_ne_bytes(bytes())
}
pub fn usize() -> usize {
    usize::from_ne_bytes(bytes())
}
pub fn bool() -> bool {
    u8() & 1 == 1
}

/// Restricts the inputs under consideration.
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c as i32) }
}

/// The property is broken.
#[inline(never)]
#[cold]
pub fn fail(msg: &str) -> ! {
    unsafe { imp::sym_fail(msg.as_ptr(), msg.len()) }
}

#[inline(always)]
pub fn check(c: bool, msg: &str) {
    if !c {
        fail(msg)
    }
}

/// Marks a situation the exploration has to reach.
#[inline(never)]
pub fn cover(msg: &str) {
    unsafe { imp::sym_cover(msg.as_ptr(), msg.len()) }
}

/// Reports result octets, compared between the engine and the native run of the same input.
#[inline(never)]
pub fn out(b: &[u8]) {
    if !b.is_empty() {
        unsafe { imp::sym_out(b.as_ptr(), b.len()) }
    }
}

/// One path for each possible value.
pub fn split(x: usize) -> usize {
    unsafe { imp::sym_concretize(x as u64) as usize }
}

/// Any number below `n`, one path for each.
pub fn choice(n: usize) -> usize {
    let x = u8() as usize;
    assume(x < n);
    split(x)
}

/// Number of allocations not yet released.
#[inline(never)]
pub fn live() -> usize {
    unsafe { imp::sym_live() as usize }
}

/// Largest single allocation allowed from here on.
pub fn alloc_limit(n: usize) {
    unsafe { imp::sym_limit(n as u64) }
}

/// The `n`-th allocation from here on fails; never if `n` is 0.
#[inline(never)]
pub fn fail_alloc(n: usize) {
    unsafe { imp::sym_fail_alloc(n as u64) }
}

/// Declares the entry points of a module.
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        #[cfg(not(feature = "replay"))]
        mod entry {
            $(
                #[no_mangle]
                pub extern "C" fn $name() {
                    super::$name()
                }
            )*
        }
        #[cfg(feature = "replay")]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}
