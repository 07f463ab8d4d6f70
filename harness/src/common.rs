//! Shared plumbing: scenario replay over worker threads, panic capture, coverage counters.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// A disagreement between the specification and the code. `key` identifies the kind of
/// disagreement together with the specific input class (used by the known-findings file).
#[derive(Debug, Clone)]
pub struct Mismatch {
    pub key: String,
    pub msg: String,
}
pub type Outcome = Result<(), Mismatch>;
pub type Handler = fn(&Value) -> Outcome;

pub fn mm<T>(key: &str, msg: String) -> Result<T, Mismatch> {
    Err(Mismatch { key: key.to_string(), msg })
}
#[macro_export]
macro_rules! bail { ($key:expr, $($a:tt)*) => { return $crate::common::mm($key, format!($($a)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return $crate::common::mm($key, format!($($a)*)) } } }

thread_local! {
    static COV: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn cov(k: &'static str) { COV.with(|c| *c.borrow_mut().entry(k).or_insert(0) += 1) }
pub fn cov_n(k: &'static str, n: u64) { COV.with(|c| *c.borrow_mut().entry(k).or_insert(0) += n) }
pub fn take_cov() -> BTreeMap<&'static str, u64> { COV.with(|c| std::mem::take(&mut *c.borrow_mut())) }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
/// Run code under test; a panic is reported as data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn replay(h: Handler, scen: &str, report: &str, only: Option<usize>) {
    quiet_panics();
    let text = std::fs::read_to_string(scen).expect("scenario file");
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
    let next = AtomicUsize::new(only.unwrap_or(0));
    let end = only.map_or(lines.len(), |i| i + 1);
    let mism: Mutex<Vec<Value>> = Mutex::new(Vec::new());
    let total_mism = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let covs: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let keys: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
    let nthreads = if only.is_some() { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) };
    std::thread::scope(|s| {
        for tid in 0..nthreads {
            let (next, lines, mism, total_mism, covs, done, keys) = (&next, &lines, &mism, &total_mism, &covs, &done, &keys);
            let prog = format!("{report}.prog{tid}");
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                let mut pf = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&prog).ok();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= end { break; }
                    if let Some(f) = pf.as_mut() {
                        use std::io::Seek;
                        let _ = f.seek(std::io::SeekFrom::Start(0));
                        let _ = write!(f, "{i:<12}");
                    }
                    let v: Value = match serde_json::from_str(lines[i]) {
                        Ok(v) => v,
                        Err(e) => { eprintln!("bad scenario line {i}: {e}"); std::process::exit(2); }
                    };
                    let r = match guard(|| h(&v)) {
                        Ok(r) => r,
                        Err(p) => Err(Mismatch { key: "panic".into(), msg: format!("code under test panicked: {p}") }),
                    };
                    done.fetch_add(1, Ordering::Relaxed);
                    if let Err(m) = r {
                        total_mism.fetch_add(1, Ordering::Relaxed);
                        let n = { let mut k = keys.lock().unwrap(); let e = k.entry(m.key.clone()).or_insert(0); *e += 1; *e };
                        if n <= 5 {
                            mism.lock().unwrap().push(json!({"idx": i, "key": m.key, "msg": m.msg, "scenario": v}));
                        }
                    }
                }
                let _ = std::fs::remove_file(&prog);
                let mut g = covs.lock().unwrap();
                for (k, n) in take_cov() { *g.entry(k).or_insert(0) += n; }
            }).unwrap();
        }
    });
    let ms = mism.into_inner().unwrap();
    let step = (lines.len() / 3).max(1);
    let samples: Vec<Value> = lines.iter().step_by(step).take(3).map(|l| serde_json::from_str(l).unwrap()).collect();
    let out = json!({"replayed": done.load(Ordering::Relaxed), "total_mismatches": total_mism.load(Ordering::Relaxed),
        "mismatches": ms, "keys": keys.into_inner().unwrap(), "coverage": covs.into_inner().unwrap(), "samples": samples});
    std::fs::write(report, serde_json::to_string(&out).unwrap()).expect("report");
}

/// ndjson trace writer.
pub struct Rec { pub w: std::io::BufWriter<std::fs::File>, pub n: usize }
impl Rec {
    pub fn new(p: &str) -> Self { Rec { w: std::io::BufWriter::new(std::fs::File::create(p).expect("trace file")), n: 0 } }
    pub fn put(&mut self, v: Value) { writeln!(self.w, "{v}").unwrap(); self.n += 1; }
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

// --- JSON access helpers -------------------------------------------------
pub fn i(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap_or_else(|| panic!("scenario field {k}: {v}")) }
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or_else(|| panic!("scenario field {k}: {v}")) }
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] { v[k].as_array().map(|a| a.as_slice()).unwrap_or_else(|| panic!("scenario field {k}: {v}")) }
pub fn b(v: &Value, k: &str) -> bool { v[k].as_bool().unwrap_or_else(|| panic!("scenario field {k}: {v}")) }
pub fn ints(v: &Value) -> Vec<i64> { v.as_array().unwrap_or_else(|| panic!("not an array {v}")).iter().map(|x| x.as_i64().unwrap()).collect() }
