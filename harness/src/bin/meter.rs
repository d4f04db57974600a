//! C20: measures instructions and allocated bytes while documents of growing size are read or
//! written. Instructions are counted by callgrind, of which this is told through client requests;
//! without it only allocations are measured. One process judges one family.
//!
//!     meter list
//!     meter FAMILY SIZES CALLGRIND-OUT-FILE
//!
//! Prints one line of JSON per family.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use harness::meter::{families, Family};

struct Counting;

static TOTAL: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);

fn grow(n: usize) {
    TOTAL.fetch_add(n as u64, Relaxed);
    let live = LIVE.fetch_add(n as u64, Relaxed) + n as u64;
    PEAK.fetch_max(live, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // May copy everything
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        grow(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// A valgrind client request; 0 where there is no valgrind
fn request(code: usize) -> usize {
    let args: [usize; 6] = [code, 0, 0, 0, 0, 0];
    let mut result = 0usize;
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") result, in("rax") &args, inout("rdi") 0usize => _,
        );
    }
    std::hint::black_box(&args);
    result
}

const RUNNING_ON_VALGRIND: usize = 0x1001;
const CALLGRIND: usize = ((b'C' as usize) << 24) | ((b'T' as usize) << 16);
const DUMP_STATS: usize = CALLGRIND;
const ZERO_STATS: usize = CALLGRIND + 1;

thread_local! {
    static DUMPS: Cell<usize> = const { Cell::new(0) };
}

/// Instructions since ZERO_STATS
fn instructions(out: &str) -> u64 {
    request(DUMP_STATS);
    let n = DUMPS.get() + 1;
    DUMPS.set(n);
    let text = std::fs::read_to_string(format!("{out}.{n}")).expect("callgrind's dump");
    let line = text.lines().find_map(|l| l.strip_prefix("summary: ").or(l.strip_prefix("totals: ")));
    let count = line.expect("a summary").trim().parse().expect("a number");
    let _ = std::fs::remove_file(format!("{out}.{n}"));
    count
}

struct Sample {
    size: usize,
    work: u64,
    total: u64,
    peak: u64,
    ok: bool,
}

fn measure(f: &Family, n: usize, out: &str, counted: bool) -> Sample {
    let (size, mut op) = (f.make)(n);
    if counted {
        request(ZERO_STATS);
    }
    let (total, live) = (TOTAL.load(Relaxed), LIVE.load(Relaxed));
    PEAK.store(live, Relaxed);
    let ok = op();
    let (total, peak) = (TOTAL.load(Relaxed) - total, PEAK.load(Relaxed) - live);
    let work = match counted {
        true => instructions(out),
        false => 0,
    };
    Sample { size, work, total, peak, ok }
}

/// What is left of growth when the size's own is taken out may be this much, per factor of four
const SLACK: f64 = 1.35;

/// Allocations that double in size may stand anywhere between just enough and twice that
const SLACK_CAPACITY: f64 = 2.4;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args[0] == "list" {
        for f in families() {
            println!("{}", f.name);
        }
        return;
    }
    let f = families().into_iter().find(|f| f.name == args[0]).expect("a family");
    let counted = request(RUNNING_ON_VALGRIND) != 0;
    // One-time costs
    measure(&f, 64, &args[2], counted);
    let mut samples: Vec<Sample> = Vec::new();
    let mut violation = String::new();
    let mut n = 256;
    loop {
        let s = measure(&f, n, &args[2], counted);
        if let Some(last) = samples.last() {
            let by = s.size as f64 / last.size as f64;
            for (what, new, old, slack) in [
                ("instructions", s.work, last.work, SLACK),
                ("bytes allocated", s.total, last.total, SLACK_CAPACITY),
                ("peak bytes allocated", s.peak, last.peak, SLACK_CAPACITY),
            ] {
                // What does not depend on the document is no growth
                if new > old && (new - old) as f64 > slack * (by * old as f64 - old as f64) + 4096.0 {
                    violation = format!(
                        "{}: {what} grow faster than the document: {old} for {} bytes, {new} for {} bytes",
                        f.name, last.size, s.size
                    );
                }
            }
        }
        samples.push(s);
        n *= 4;
        if !violation.is_empty() || n > args[1].parse().unwrap() {
            break;
        }
    }
    let list: Vec<_> = samples
        .iter()
        .map(|s| format!("[{},{},{},{}]", s.size, s.work, s.total, s.peak))
        .collect();
    println!(
        "{{\"family\":{},\"counted\":{counted},\"ok\":{},\"samples\":[{}],\"violation\":{}}}",
        harness::runner::json_str(f.name),
        samples.iter().all(|s| s.ok),
        list.join(","),
        harness::runner::json_str(&violation)
    );
}
