//! Case runner: evaluates contracts on concrete inputs of the real crate.
use rand::rngs::SmallRng;
use rand::SeedableRng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static CASE_NO: AtomicU64 = AtomicU64::new(0);
pub static CASE_START: AtomicU64 = AtomicU64::new(u64::MAX);
pub static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

pub struct Failure { pub key: String, pub input: String, pub msg: String }

pub struct Ctx {
    pub rng: SmallRng,
    pub thorough: bool,
    pub t0: Instant,
    pub secs: u64,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub distinct: u64,
    pub fails: Vec<Failure>,
    pub fail_count: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub rules: Vec<String>,
    pub trace: Option<String>,
    pub phase_end: Option<Instant>,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, secs: u64, trace: Option<String>) -> Self {
        Ctx { rng: SmallRng::seed_from_u64(seed ^ 0x9e3779b97f4a7c15), thorough, t0: Instant::now(), secs, evals: 0, seen: HashSet::new(), distinct: 0,
              fails: vec![], fail_count: BTreeMap::new(), samples: vec![], rules: vec![], trace, phase_end: None }
    }
    pub fn rule(&mut self, s: &str) { self.rules.push(s.to_string()); }
    /// share of the remaining budget given to the next phase
    pub fn phase(&mut self, share: f64) {
        let left = (self.secs as f64 - self.t0.elapsed().as_secs_f64()).max(0.5);
        self.phase_end = Some(Instant::now() + Duration::from_secs_f64(left * share));
    }
    pub fn time_left(&self) -> bool {
        if let Some(e) = self.phase_end { if Instant::now() >= e { return false; } }
        (self.t0.elapsed().as_secs() < self.secs) && !self.saturated()
    }
    pub fn saturated(&self) -> bool { self.fails.len() >= 12 }
    /// number of iterations: quick / thorough
    pub fn n(&self, q: u64, t: u64) -> u64 { if self.thorough { t } else { q } }

    /// one evaluation; Ok(true) = non-trivial
    pub fn case<I: Debug + Hash>(&mut self, key: &str, input: &I, f: impl FnOnce() -> Result<bool, String>) {
        if self.fail_count.get(key).copied().unwrap_or(0) >= 3 { return; }
        self.evals += 1;
        CASE_NO.fetch_add(1, SeqCst);
        if let Some(t) = &self.trace { let _ = std::fs::write(t, format!("{}\n{:?}", key, input)); }
        CASE_START.store(self.t0.elapsed().as_millis() as u64, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_START.store(u64::MAX, SeqCst);
        let msg = match r {
            Ok(Ok(nontrivial)) => {
                if nontrivial && self.seen.len() < 3_000_000 {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    key.hash(&mut h); input.hash(&mut h);
                    if self.seen.insert(h.finish()) {
                        self.distinct += 1;
                        if self.samples.len() < 40 && (self.distinct.is_power_of_two()) {
                            self.samples.push(format!("{}: {:.300}", key, format!("{:?}", input)));
                        }
                    }
                }
                return;
            }
            Ok(Err(m)) => m,
            Err(_) => format!("panicked: {}", PANIC_MSG.lock().unwrap()),
        };
        *self.fail_count.entry(key.to_string()).or_insert(0) += 1;
        self.fails.push(Failure { key: key.to_string(), input: format!("{:?}", input), msg });
    }
}


#[macro_export]
macro_rules! req { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

/// run a call that is allowed to panic; None = it panicked
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o
}
