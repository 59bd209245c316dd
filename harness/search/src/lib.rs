//! Driver shared by the failing-input searches and bounded stand-ins: seeded, time-boxed, and every
//! failing case is written out as text that `--case` replays.
use rand::{Rng, SeedableRng};
pub use rand::rngs::StdRng;
pub use rand::RngCore;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

macro_rules! say { ($($a:tt)*) => { $crate::say_line(format!($($a)*)) } }
pub mod gen;
pub mod layered_oracle;
pub type Case = Result<(), String>;
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// The case under way: (part:seed, start).  A watchdog reports a case that does not end.
static CURRENT: Mutex<Option<(String, Instant)>> = Mutex::new(None);
const HANG_SECS: u64 = 60;
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        if let Some((c, t)) = CURRENT.lock().unwrap().clone() {
            if t.elapsed().as_secs() >= HANG_SECS {
                say!("{}", serde_json::json!({"status": "fail", "case": c, "what": format!("the code did not return within {HANG_SECS} s"), "input": "", "evaluations": 0}));
                std::process::exit(1);
            }
        }
    });
}
fn note_case(f: &Option<std::fs::File>, c: &str) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = f { let _ = f.write_at(format!("{c:<80}\n").as_bytes(), 0); }
}

extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
/// what the code under test prints is dropped from here on; the search's own lines are not
pub fn quiet() {
    use std::os::fd::AsRawFd;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe { let o = dup(1); dup2(null.as_raw_fd(), 1); OUT.store(o, std::sync::atomic::Ordering::SeqCst); }
}
fn say_line(s: String) {
    use std::{io::Write, os::fd::FromRawFd};
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(OUT.load(std::sync::atomic::Ordering::SeqCst)) });
    let _ = f.write_all((s + "\n").as_bytes());
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

/// Runs the real code, turning a panic into an Err with its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("the code panicked: {}", LAST_PANIC.lock().unwrap().clone()))
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

pub struct Search { pub seed: u64, secs: f64, start: Instant, evals: u64, distinct: HashSet<u64>, samples: Vec<String>, only: Option<(String, u64)>, parts: Vec<(String, u64)>, known: Vec<String>, known_hit: Vec<String>, max_cases: u64, casefile: Option<std::fs::File> }

fn h(s: &str) -> u64 { use std::hash::{Hash, Hasher}; let mut x = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut x); x.finish() }

impl Search {
    /// args: --seed N --secs S [--known FILE] [--case PART:SEED]
    pub fn new() -> Search {
        std::panic::set_hook(Box::new(|i| { *LAST_PANIC.lock().unwrap() = format!("{i}").replace('\n', " "); }));
        let a: Vec<String> = std::env::args().collect();
        watchdog();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
        let only = get("--case").map(|c| { let (p, s) = c.rsplit_once(':').unwrap(); (p.to_string(), s.parse().unwrap()) });
        let known = get("--known").map(|f| f.split('\u{1f}').map(|x| x.to_string()).filter(|x| !x.is_empty()).collect()).unwrap_or_default();
        Search { seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0), start: Instant::now(), evals: 0, distinct: HashSet::new(), samples: vec![], only, parts: vec![], known, known_hit: vec![], max_cases: get("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX), casefile: get("--casefile").and_then(|f| std::fs::File::create(f).ok()) }
    }
    /// One part of the search: `f(rng, size, log)` builds a case (describing it in `log`), runs the real code
    /// and compares with the oracle.  `share` is the fraction of the time budget, `max` bounds the cases.
    pub fn part(&mut self, name: &str, share: f64, max: u64, f: impl Fn(&mut StdRng, usize, &mut String) -> Case) {
        if let Some((p, s)) = self.only.clone() { if p == name { self.one(name, s, &f); } return; }
        let t0 = Instant::now(); let budget = Duration::from_secs_f64((self.secs * share).max(0.2));
        let base = h(name) ^ self.seed.wrapping_mul(0x9e3779b97f4a7c15);
        let mut k = 0u64; let mut n = 0;
        while k < max.min(self.max_cases) && (k < 3 || t0.elapsed() < budget) {
            // the size ramps up with the case number and then cycles
            let cs = (base.wrapping_add(k.wrapping_mul(0x2545f4914f6cdd1d)) & !0xffff) | (k & 0xffff);
            if !self.one(name, cs, &f) { return; }
            k += 1; n += 1;
        }
        self.parts.push((name.to_string(), n));
    }
    fn one(&mut self, name: &str, cs: u64, f: &impl Fn(&mut StdRng, usize, &mut String) -> Case) -> bool {
        let mut rng = StdRng::seed_from_u64(cs);
        let k = (cs & 0xffff) as usize;
        let size = 1 + if k < 200 { k / 8 } else { rng.gen_range(0..40) };
        let mut log = String::new();
        let id = format!("{name}:{cs}");
        note_case(&self.casefile, &id);
        *CURRENT.lock().unwrap() = Some((id, Instant::now()));
        let r = match catch_unwind(AssertUnwindSafe(|| f(&mut rng, size, &mut log))) { Ok(r) => r, Err(_) => Err(format!("the code panicked: {}", LAST_PANIC.lock().unwrap().clone())) };
        *CURRENT.lock().unwrap() = None;
        self.evals += 1;
        if !log.is_empty() && self.distinct.insert(h(&log)) && self.samples.len() < 3 && log.len() > 20 { self.samples.push(format!("{name}:{cs} {}", cut(&log, 300))); }
        if let Err(e) = r {
            if let Some(x) = self.known.iter().find(|x| { let (p, s) = x.split_once("::").unwrap_or((name, x)); p == name && e.contains(s) }) { if !self.known_hit.contains(x) { self.known_hit.push(x.clone()); } return true; }
            say!("{}", serde_json::json!({"status": "fail", "case": format!("{name}:{cs}"), "what": cut(&e, 2000), "input": cut(&log, 6000), "evaluations": self.evals}));
            std::process::exit(1);
        }
        true
    }
    pub fn finish(self) -> ! {
        say!("{}", serde_json::json!({"status": "ok", "evaluations": self.evals, "distinct": self.distinct.len(), "parts": self.parts, "samples": self.samples, "known": self.known_hit, "secs": self.start.elapsed().as_secs_f64()}));
        std::process::exit(0)
    }
}
fn cut(s: &str, n: usize) -> String { if s.len() <= n { s.to_string() } else { let mut e = n; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) } }
