//! symex: symbolic execution of LLVM IR with Z3 as the decision procedure.
//!
//! Usage: symex --ir FILE --entry NAME --out FILE [--jobs N] [--time SECONDS] ...
//! The result is a JSON document; the exit code is 0 if exploration was carried out at all.

mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One result record per process, as a line-oriented text the parent merges.
fn dump(e: &Engine, tag: &str) -> String {
    let mut o = String::new();
    let _ = writeln!(
        o,
        "{{\"tag\":{},\"paths\":{},\"assumed\":{},\"steps\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"nodes\":{},\"pending\":{},\"timed_out\":{},\"wall_s\":{:.3},",
        esc(tag), e.paths, e.assumed, e.steps, e.forks, e.sv.queries, e.sv.sat, e.sv.unsat, e.sv.unknown, e.sv.cached,
        e.sv.time, e.sv.max_query, e.ar.nodes.len(), e.work.len(), e.timed_out, e.start.elapsed().as_secs_f64()
    );
    let covers: Vec<String> = e.covers.iter().map(|c| esc(c)).collect();
    let _ = writeln!(o, "\"covers\":[{}],", covers.join(","));
    let inc: Vec<String> = e.inconclusive.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = writeln!(o, "\"inconclusive\":{{{}}},", inc.join(","));
    let mut fns: BTreeMap<String, BTreeSet<(String, u32)>> = BTreeMap::new();
    for (d, s) in e.seen.iter().enumerate() {
        if *s {
            for (f, file, line) in e.m.where_is(d as u32) {
                if file.contains("/repo/") {
                    fns.entry(f).or_default().insert((file, line));
                }
            }
        }
    }
    let mut parts = Vec::new();
    for (f, ls) in &fns {
        let l: Vec<String> = ls.iter().map(|(a, b)| format!("[{},{}]", esc(a), b)).collect();
        parts.push(format!("{}:[{}]", esc(f), l.join(",")));
    }
    let _ = writeln!(o, "\"functions\":{{{}}},", parts.join(",\n"));
    let mut fs = Vec::new();
    for f in &e.found {
        let st: Vec<String> = f
            .stack
            .iter()
            .map(|(a, b, c)| format!("[{},{},{}]", esc(a), esc(b), c))
            .collect();
        let ins: Vec<String> = f
            .inputs
            .iter()
            .map(|v| {
                let h: String = v.iter().map(|b| format!("{:02x}", b)).collect();
                esc(&h)
            })
            .collect();
        let tr: Vec<String> = f.trace.iter().map(|t| esc(t)).collect();
        fs.push(format!(
            "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":[{}],\"trace\":[{}]}}",
            esc(&f.kind),
            esc(&f.msg),
            st.join(","),
            ins.join(","),
            tr.join(",")
        ));
    }
    let _ = writeln!(o, "\"found\":[{}],", fs.join(","));
    let hex = |vs: &[Vec<u8>]| -> String {
        let v: Vec<String> = vs
            .iter()
            .map(|v| esc(&v.iter().map(|b| format!("{:02x}", b)).collect::<String>()))
            .collect();
        format!("[{}]", v.join(","))
    };
    let ws: Vec<String> = e
        .witnesses
        .iter()
        .map(|w| {
            let c: Vec<String> = w.covers.iter().map(|c| esc(c)).collect();
            format!(
                "{{\"inputs\":{},\"covers\":[{}],\"outs\":{},\"aborts\":{}}}",
                hex(&w.inputs),
                c.join(","),
                hex(&w.outs),
                w.aborts
            )
        })
        .collect();
    let _ = writeln!(o, "\"witnesses\":[{}]}}", ws.join(",\n"));
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
    };
    let num = |k: &str, d: f64| get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
    let ir = get("--ir").expect("--ir");
    let entry = get("--entry").expect("--entry");
    let out = get("--out").expect("--out");
    let jobs = num("--jobs", 1.0) as usize;
    let limits = Limits {
        time: num("--time", 600.0),
        after_violation: num("--after-violation", 10.0),
        max_steps: num("--max-steps", 20_000_000.0) as u64,
        alloc_limit: num("--alloc-limit", 65536.0) as u64,
        max_found: num("--max-found", 12.0) as usize,
        witnesses: num("--witnesses", 0.0) as usize,
        seed: num("--seed", 1.0) as u64,
    };
    let smt = num("--smt-timeout", 60_000.0) as u32;

    let t0 = Instant::now();
    let m = match ir::Module::load(&ir) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot load IR: {}", e);
            std::process::exit(65);
        }
    };
    let mut e = match Engine::new(m, limits, smt) {
        Ok(e) => e,
        Err(x) => {
            eprintln!("cannot lay out the module: {}", x);
            std::process::exit(65);
        }
    };
    e.start = t0;
    let st = match e.initial(&entry) {
        Ok(s) => s,
        Err(x) => {
            eprintln!("cannot start: {}", x);
            std::process::exit(66);
        }
    };
    e.work.push(st);

    let shared = Shared::new(get("--tokens").as_deref(), jobs);
    // Workers end as soon as their own work is done; the ones they forked become children of this one.
    assert!(unsafe { prctl(36, 1, 0, 0, 0) } == 0, "prctl");
    explore(&mut e, &shared, &out);
    let mut results = vec![dump(&e, "main")];
    loop {
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        if pid < 0 {
            break;
        }
        let p = format!("{}.{}", out, pid);
        if st != 0 {
            results.push(format!("{{\"tag\":\"worker\",\"crashed\":{}}}\n", st));
        } else {
            results.push(std::fs::read_to_string(&p).expect("worker result"));
        }
        let _ = std::fs::remove_file(&p);
    }
    std::fs::write(&out, format!("[{}]\n", results.join(","))).expect("write result");
}

/// Memory shared by the processes of one run (violation flag) and of one check (free processors).
struct Shared {
    tokens: &'static AtomicI32,
    flag: &'static AtomicI32,
}

impl Shared {
    fn new(file: Option<&str>, jobs: usize) -> Shared {
        let map = |fd: i32, flags: i32| -> &'static AtomicI32 {
            let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, flags, fd, 0) };
            assert!(p as isize != -1, "mmap");
            unsafe { &*(p as *const AtomicI32) }
        };
        let flag = map(-1, 0x21);
        let tokens = match file {
            Some(f) => {
                let f = std::fs::OpenOptions::new().read(true).write(true).open(f).expect("tokens");
                map(std::os::fd::AsRawFd::as_raw_fd(&f), 1)
            }
            None => {
                let t = map(-1, 0x21);
                t.store(jobs as i32, SeqCst);
                t
            }
        };
        tokens.fetch_sub(1, SeqCst);
        Shared { tokens, flag }
    }

    fn take(&self) -> bool {
        self.tokens
            .fetch_update(SeqCst, SeqCst, |n| if n > 0 { Some(n - 1) } else { None })
            .is_ok()
    }
}

/// Runs all pending paths. While processors are free, half of the pending work goes to a forked process.
fn explore(e: &mut Engine, sh: &Shared, out: &str) {
    let mut last = Instant::now();
    loop {
        if sh.flag.load(SeqCst) != 0 && e.first_violation.is_none() {
            e.first_violation = Some(Instant::now());
        }
        if e.out_of_time() {
            break;
        }
        if e.work.len() > 1 && last.elapsed().as_millis() > 40 && sh.take() {
            let pid = unsafe { fork() };
            if pid == 0 {
                let keep = e.work.len() / 2;
                e.work.truncate(keep);
                e.reset();
                explore(e, sh, out);
                let me = std::process::id();
                let ok = std::fs::write(format!("{}.{}", out, me), dump(e, "worker")).is_ok();
                unsafe { _exit(if ok { 0 } else { 9 }) };
            }
            if pid > 0 {
                let keep = e.work.len() / 2;
                e.work.drain(..keep);
            } else {
                sh.tokens.fetch_add(1, SeqCst);
            }
            last = Instant::now();
        }
        match e.work.pop() {
            Some(s) => e.run_path(s),
            None => break,
        }
        if e.first_violation.is_some() {
            sh.flag.store(1, SeqCst);
        }
    }
    sh.tokens.fetch_add(1, SeqCst);
}
