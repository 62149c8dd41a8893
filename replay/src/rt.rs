//! Native counterpart of the engine's intrinsics: recorded input octets in, observations out.

use std::cell::RefCell;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

pub const EXIT_FAIL: i32 = 99;
pub const EXIT_MEMORY: i32 = 97;
pub const EXIT_ALLOC: i32 = 98;
pub const EXIT_ASSUME: i32 = 77;
pub const EXIT_INPUT: i32 = 76;

thread_local! {
    static INPUTS: RefCell<(Vec<Vec<u8>>, usize)> = RefCell::new((Vec::new(), 0));
}

/// Largest single allocation allowed; 0 while the harness is not running.
pub static LIMIT: AtomicU64 = AtomicU64::new(0);

pub fn feed(v: Vec<Vec<u8>>) {
    INPUTS.with(|i| *i.borrow_mut() = (v, 0));
}

pub fn line(s: &str) {
    let count = COUNT.load(Ordering::SeqCst);
    let fail = FAIL_AFTER.swap(0, Ordering::SeqCst);
    let limit = LIMIT.swap(0, Ordering::SeqCst);
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
    LIMIT.store(limit, Ordering::SeqCst);
    COUNT.store(count, Ordering::SeqCst);
    FAIL_AFTER.store(fail, Ordering::SeqCst);
}

/// Formats and prints without counting the allocations of doing so.
fn tell(s: impl FnOnce() -> String) {
    let fail = FAIL_AFTER.swap(0, Ordering::SeqCst);
    line(&s());
    FAIL_AFTER.store(fail, Ordering::SeqCst);
}

unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}

pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
    let fail = FAIL_AFTER.swap(0, Ordering::SeqCst);
    let v = INPUTS.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).cloned()
    });
    FAIL_AFTER.store(fail, Ordering::SeqCst);
    match v {
        Some(v) if v.len() == n => std::ptr::copy_nonoverlapping(v.as_ptr(), p, n),
        _ => {
            line("INPUT exhausted or of the wrong size");
            std::process::exit(EXIT_INPUT)
        }
    }
}

pub unsafe fn sym_assume(c: i32) {
    if c == 0 {
        line("ASSUME");
        std::process::exit(EXIT_ASSUME)
    }
}

pub unsafe fn sym_fail(p: *const u8, n: usize) -> ! {
    tell(|| format!("FAIL {}", text(p, n)));
    std::process::exit(EXIT_FAIL)
}

pub unsafe fn sym_cover(p: *const u8, n: usize) {
    tell(|| format!("COVER {}", text(p, n)));
}

pub unsafe fn sym_out(p: *const u8, n: usize) {
    let hex = |b: &u8| format!("{:02x}", b);
    tell(|| format!("OUT {}", std::slice::from_raw_parts(p, n).iter().map(hex).collect::<String>()));
}

pub unsafe fn sym_concretize(x: u64) -> u64 {
    x
}

/// Number of live allocations.
pub static COUNT: AtomicU64 = AtomicU64::new(0);

pub unsafe fn sym_live() -> u64 {
    COUNT.load(Ordering::SeqCst)
}

pub unsafe fn sym_limit(n: u64) {
    LIMIT.store(n, Ordering::SeqCst);
}

/// Allocations until one fails; 0 for never.
pub static FAIL_AFTER: AtomicU64 = AtomicU64::new(0);

pub unsafe fn sym_fail_alloc(n: u64) {
    FAIL_AFTER.store(n, Ordering::SeqCst);
}
