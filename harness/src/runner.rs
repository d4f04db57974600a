//! Runs campaigns of cases on all cores, watches for panics, stalls and crashes, records what
//! was observed and writes violations as replay files.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::{hash64, splitmix, Rng};

/// What happened in one case
pub struct Cx {
    pub rng: Rng,
    pub index: u64,
    pub thorough: bool,
    counts: BTreeMap<&'static str, u64>,
    distinct: Vec<u64>,
    sample: Option<String>,
    /// The input most recently handed to the library, for reports
    pub input: String,
}

impl Cx {
    /// Count something the monitors observed
    pub fn saw(&mut self, what: &'static str) {
        *self.counts.entry(what).or_default() += 1;
    }
    pub fn saw_n(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_default() += n;
    }
    /// Record a distinct, non-trivial case
    pub fn distinct(&mut self, bytes: &[u8]) {
        self.distinct.push(hash64(bytes));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.index < 3 {
            self.sample = Some(f());
        }
    }
}

pub type CaseFn = fn(&mut Cx) -> Result<(), String>;

#[derive(Clone)]
pub struct Campaign {
    pub name: &'static str,
    /// Number of cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

impl Campaign {
    pub fn new(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Self {
        Campaign { name, quick, thorough, run }
    }
}

pub struct Args {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub out: PathBuf,
    pub crumbs: PathBuf,
    pub threads: usize,
    /// campaign:index
    pub only: Option<(String, u64)>,
    pub time_cap: Duration,
    /// Divide the number of cases
    pub scale: u64,
}

pub fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        thorough: false,
        seed: 1,
        out: "/dev/stdout".into(),
        crumbs: "/dev/null".into(),
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
        only: None,
        time_cap: Duration::from_secs(0),
        scale: 1,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match k.as_str() {
            "--prop" => a.prop = v(),
            "--tier" => a.thorough = v() == "thorough",
            "--seed" => a.seed = v().parse().unwrap(),
            "--out" => a.out = v().into(),
            "--crumbs" => a.crumbs = v().into(),
            "--threads" => a.threads = v().parse().unwrap(),
            "--cap" => a.time_cap = Duration::from_secs(v().parse().unwrap()),
            "--scale" => a.scale = v().parse().unwrap(),
            "--only" => {
                let v = v();
                let (c, i) = v.rsplit_once(':').expect("campaign:index");
                a.only = Some((c.to_owned(), i.parse().unwrap()));
            }
            _ => panic!("unknown argument {k}"),
        }
    }
    if a.time_cap.is_zero() {
        a.time_cap = Duration::from_secs(if a.thorough { 600 } else { 150 });
    }
    a
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs `f`; a panic becomes an error (location, message)
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
    })
}

/// True if a panic came from the check's own code rather than the library or what it derives
pub fn own_panic(loc: &str) -> bool {
    let own = loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("harness/");
    own && !derived(loc)
}

/// Derived code has the place of the derive attribute
fn derived(loc: &str) -> bool {
    let line = || {
        let (file, line) = loc.rsplit_once(':')?;
        let file = match file.starts_with("src/") {
            true => format!("{}/{file}", env!("CARGO_MANIFEST_DIR")),
            false => file.to_owned(),
        };
        let text = std::fs::read_to_string(file).ok()?;
        let line = text.lines().nth(line.parse::<usize>().ok()? - 1)?;
        Some(line.contains("derive(") || line.contains("#[xml("))
    };
    line() == Some(true)
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub campaign: String,
    pub index: u64,
    pub message: String,
    pub input: String,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub per_campaign: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub capped: bool,
}

struct Slot {
    /// 0: idle, otherwise milliseconds since the start + 1
    since: AtomicU64,
    campaign: AtomicUsize,
    index: AtomicU64,
}

const STALL_SECS: u64 = 60;

pub fn run(args: &Args, campaigns: &[Campaign]) -> Report {
    install_panic_hook();
    let start = Instant::now();
    let report = Mutex::new(Report::default());
    let crumbs = File::options().create(true).truncate(false).write(true).open(&args.crumbs).unwrap();
    let stop = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let slots: Vec<Slot> = (0..args.threads)
        .map(|_| Slot { since: AtomicU64::new(0), campaign: AtomicUsize::new(0), index: AtomicU64::new(0) })
        .collect();

    std::thread::scope(|s| {
        // Watchdog: a case that never ends is a violation as well
        s.spawn(|| {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                let now = start.elapsed().as_millis() as u64;
                for slot in &slots {
                    let since = slot.since.load(Ordering::Relaxed);
                    if since != 0 && now > since + STALL_SECS * 1000 {
                        let c = &campaigns[slot.campaign.load(Ordering::Relaxed)];
                        let mut r = report.lock().unwrap();
                        r.violations.push(Violation {
                            campaign: c.name.into(),
                            index: slot.index.load(Ordering::Relaxed),
                            message: format!("no result after {STALL_SECS} s"),
                            input: String::new(),
                        });
                        write_report(args, &r, start.elapsed());
                        std::process::exit(1);
                    }
                }
            }
        });

        let n = campaigns.len() as u32;
        for (ci, c) in campaigns.iter().enumerate() {
            let total = match (&args.only, args.thorough) {
                (Some((name, _)), _) if name != c.name => continue,
                (Some(_), _) => 1,
                (None, true) => c.thorough,
                (None, false) => c.quick,
            };
            let total = (total / args.scale).max(1);
            // Time left is shared by the campaigns that remain
            let left = args.time_cap.saturating_sub(start.elapsed());
            let deadline = Instant::now() + left / (n - ci as u32);
            let next = AtomicU64::new(0);
            let base = hash64(format!("{}/{}/{}", args.seed, args.prop, c.name).as_bytes());
            std::thread::scope(|w| {
                let mut handles = Vec::new();
                for (t, slot) in slots.iter().enumerate().take(args.threads.min(total as usize)) {
                    let (next, report, crumbs, stop) = (&next, &report, &crumbs, &stop);
                    let body = move || {
                        let mut local = Report::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if (cfg!(miri) || i % 16 == 0) && args.only.is_none() && Instant::now() > deadline {
                                local.capped = true;
                                break;
                            }
                            let index = args.only.as_ref().map_or(i, |o| o.1);
                            slot.campaign.store(ci, Ordering::Relaxed);
                            slot.index.store(index, Ordering::Relaxed);
                            slot.since.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let crumb = format!("{:<40} {index:<20}\n", c.name);
                            let _ = crumbs.write_at(crumb.as_bytes(), (t * 62) as u64);

                            let mut s = base ^ index.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                            let mut cx = Cx {
                                rng: Rng::new(splitmix(&mut s)),
                                index,
                                thorough: args.thorough,
                                counts: BTreeMap::new(),
                                distinct: Vec::new(),
                                sample: None,
                                input: String::new(),
                            };
                            let outcome = catch(|| (c.run)(&mut cx));
                            slot.since.store(0, Ordering::Relaxed);
                            local.evaluations += 1;
                            for (k, v) in cx.counts {
                                *local.counts.entry(k).or_default() += v;
                            }
                            local.distinct.extend(cx.distinct);
                            local.samples.extend(cx.sample.map(|s| format!("{}#{index}: {s}", c.name)));
                            let message = match outcome {
                                Ok(Ok(())) => continue,
                                Ok(Err(message)) => message,
                                Err((loc, msg)) if own_panic(&loc) => {
                                    local.errors.push(format!("{}:{index}: harness panic at {loc}: {msg}", c.name));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                Err((loc, msg)) => format!("panic at {loc}: {msg}"),
                            };
                            local.violations.push(Violation {
                                campaign: c.name.into(),
                                index,
                                message,
                                input: cx.input,
                            });
                            if local.violations.len() >= 3 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        let mut r = report.lock().unwrap();
                        r.evaluations += local.evaluations;
                        *r.per_campaign.entry(c.name).or_default() += local.evaluations;
                        for (k, v) in local.counts {
                            *r.counts.entry(k).or_default() += v;
                        }
                        r.distinct.extend(local.distinct);
                        r.samples.extend(local.samples);
                        r.violations.extend(local.violations);
                        r.errors.extend(local.errors);
                        r.capped |= local.capped;
                    };
                    // Deep recursion in the checks' own parsers must not be what overflows
                    handles.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(w, body).unwrap());
                }
                for h in handles {
                    h.join().unwrap();
                }
            });
        }
        finished.store(true, Ordering::Relaxed);
    });
    let mut report = report.into_inner().unwrap();
    report.violations.sort_by(|a, b| (&a.campaign, a.index).cmp(&(&b.campaign, b.index)));
    write_report(args, &report, start.elapsed());
    report
}

pub fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn clip(s: &str, n: usize) -> String {
    match s.char_indices().nth(n) {
        Some((i, _)) => format!("{}… ({} bytes)", &s[..i], s.len()),
        None => s.to_owned(),
    }
}

pub fn write_report(args: &Args, r: &Report, wall: Duration) {
    let mut j = String::from("{");
    j.push_str(&format!("\"prop\":{},", json_str(&args.prop)));
    j.push_str(&format!("\"evaluations\":{},\"distinct\":{},", r.evaluations, r.distinct.len()));
    j.push_str(&format!("\"capped\":{},\"wall_s\":{:.2},", r.capped, wall.as_secs_f64()));
    let map = |m: &BTreeMap<&'static str, u64>| {
        m.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
    };
    j.push_str(&format!("\"observed\":{{{}}},", map(&r.counts)));
    j.push_str(&format!("\"campaigns\":{{{}}},", map(&r.per_campaign)));
    let mut samples = r.samples.clone();
    samples.sort();
    let samples: Vec<_> = samples.iter().take(12).map(|s| json_str(&clip(s, 600))).collect();
    j.push_str(&format!("\"samples\":[{}],", samples.join(",")));
    let errors: Vec<_> = r.errors.iter().take(5).map(|s| json_str(s)).collect();
    j.push_str(&format!("\"errors\":[{}],", errors.join(",")));
    let v: Vec<_> = r
        .violations
        .iter()
        .take(8)
        .map(|v| {
            format!(
                "{{\"campaign\":{},\"index\":{},\"message\":{},\"input\":{}}}",
                json_str(&v.campaign),
                v.index,
                json_str(&clip(&v.message, 6000)),
                json_str(&clip(&v.input, 20000))
            )
        })
        .collect();
    j.push_str(&format!("\"violations\":[{}]}}\n", v.join(",")));
    std::fs::write(&args.out, j).unwrap();
}

/// Runs the campaigns and ends the process with the right exit code
pub fn finish(args: &Args, campaigns: &[Campaign]) -> ! {
    let r = run(args, campaigns);
    std::process::exit(match (r.errors.is_empty(), r.violations.is_empty()) {
        (false, _) => 2,
        (true, false) => 1,
        (true, true) => 0,
    });
}
