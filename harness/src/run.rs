//! Running the real code with panics, hangs and crashes turned into data.
//!
//! Every driver is `BIN MODE SEED START STEP END OUT [ARGS..]`: it appends one line per case
//! START, START+STEP, ... < END to OUT.  Before a case runs its number is written to OUT.cur, so
//! that after a hang (exit code 42, from the watchdog on consumed CPU time) or a crash the caller
//! knows the case, asks for its record with LSV_DEAD=hang|crash and goes on with the next one.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        LAST.with(|l| *l.borrow_mut() = s);
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let s = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = s.split_whitespace().collect();
    v.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + v.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

static STARTED: AtomicU64 = AtomicU64::new(u64::MAX);

/// CPU seconds one case may take before it counts as a hang.
pub fn limit_s() -> u64 {
    std::env::var("LSV_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(20)
}

pub struct Args {
    pub mode: String,
    pub seed: u64,
    pub dead: Option<String>,
    pub rest: Vec<String>,
}

/// Runs `case` for every assigned index.  `case` returns the record (one line of JSON), or None when
/// there is no such case.
pub fn drive(case: impl Fn(&Args, u64) -> Option<String>) {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 7 {
        eprintln!("usage: BIN MODE SEED START STEP END OUT [ARGS..]");
        std::process::exit(2);
    }
    let num = |i: usize| a[i].parse::<u64>().expect("number");
    let args = Args { mode: a[1].clone(), seed: num(2), dead: std::env::var("LSV_DEAD").ok(), rest: a[7..].to_vec() };
    let (start, step, end) = (num(3), num(4), num(5));
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(&a[6]).expect("open trace");
    let cur = format!("{}.cur", a[6]);
    let lim = limit_s() * 100;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = STARTED.load(Ordering::SeqCst);
        if s != u64::MAX && cpu_ticks() > s + lim {
            std::process::exit(42);
        }
    });
    let mut i = start;
    while i < end {
        std::fs::write(&cur, format!("{i}")).expect("write progress");
        STARTED.store(cpu_ticks(), Ordering::SeqCst);
        let rec = case(&args, i);
        STARTED.store(u64::MAX, Ordering::SeqCst);
        if let Some(r) = rec {
            out.write_all(r.as_bytes()).expect("write trace");
            out.write_all(b"\n").expect("write trace");
        }
        i += step;
    }
    std::fs::write(&cur, "done").expect("write progress");
}

/// A short stable hash for identifying inputs.
pub fn fnv(parts: &[&str]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.bytes().chain([0u8]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    format!("{h:016x}")
}
