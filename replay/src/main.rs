//! replay ENTRY FILE: runs one harness natively on recorded inputs.
//!
//! FILE has one line of hexadecimal digits for each input the harness asks for.

use harness::replay_rt::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering;

/// Checks what an ordinary allocator does not: layouts, double frees, writes behind the end,
/// and over-large requests. Fresh memory is filled with a pattern and freed memory never reused.
struct Guard;

const HEAD: usize = 64;
const TAIL: usize = 64;
const LIVE: u64 = 0x5a5a_1234_9876_a5a5;
const DEAD: u64 = 0xdead_dead_dead_dead;

fn die(code: i32, msg: &str) -> ! {
    LIMIT.store(0, Ordering::SeqCst);
    line(msg);
    std::process::exit(code)
}

#[cfg(not(miri))]
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let limit = LIMIT.load(Ordering::SeqCst);
        if limit != 0 && l.size() as u64 > limit {
            die(EXIT_ALLOC, &format!("ALLOC {}", l.size()));
        }
        let left = FAIL_AFTER.load(Ordering::SeqCst);
        if left != 0 {
            FAIL_AFTER.store(left - 1, Ordering::SeqCst);
            if left == 1 {
                return std::ptr::null_mut();
            }
        }
        let head = HEAD.max(l.align());
        let whole = match Layout::from_size_align(head + l.size() + TAIL, l.align().max(16)) {
            Ok(w) => w,
            Err(_) => return std::ptr::null_mut(),
        };
        let b = System.alloc(whole);
        if b.is_null() {
            return b;
        }
        let p = b.add(head);
        std::ptr::write_bytes(b, 0xc3, head);
        std::ptr::write_bytes(p, 0xa7, l.size());
        std::ptr::write_bytes(p.add(l.size()), 0x3c, TAIL);
        let h = p.sub(32) as *mut u64;
        h.write(LIVE);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        COUNT.fetch_add(1, Ordering::SeqCst);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(32) as *mut u64;
        if h.read() == DEAD {
            die(EXIT_MEMORY, "MEMORY double free");
        }
        if h.read() != LIVE {
            die(EXIT_MEMORY, "MEMORY free of something that was not allocated");
        }
        if h.add(1).read() != l.size() as u64 || h.add(2).read() != l.align() as u64 {
            die(EXIT_MEMORY, "MEMORY free with the wrong layout");
        }
        for i in 0..TAIL {
            if p.add(l.size() + i).read() != 0x3c {
                die(EXIT_MEMORY, "MEMORY write behind the end of an allocation");
            }
        }
        for i in 1..9 {
            if p.sub(32 + i).read() != 0xc3 || p.sub(i).read() != 0xc3 {
                die(EXIT_MEMORY, "MEMORY write before the start of an allocation");
            }
        }
        COUNT.fetch_sub(1, Ordering::SeqCst);
        h.write(DEAD);
        std::ptr::write_bytes(p, 0xd9, l.size());
    }
}

#[cfg(not(miri))]
#[global_allocator]
static GUARD: Guard = Guard;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = &a[1];
    let text = if a[2] == "-" { a[3].replace(',', "\n") } else { std::fs::read_to_string(&a[2]).expect("input file") };
    let inputs: Vec<Vec<u8>> = text
        .lines()
        .map(|l| {
            let l = l.trim();
            (0..l.len() / 2)
                .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
                .collect()
        })
        .collect();
    feed(inputs);
    let f = harness::entry_points()
        .into_iter()
        .find(|(n, _)| n == entry)
        .expect("unknown entry point")
        .1;
    let limit = std::env::var("ALLOC_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    LIMIT.store(limit, Ordering::SeqCst);
    f();
    FAIL_AFTER.store(0, Ordering::SeqCst);
    LIMIT.store(0, Ordering::SeqCst);
    line("DONE");
}
