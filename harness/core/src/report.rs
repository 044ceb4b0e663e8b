//! Counting, sampling and verdicts. A monitor writes its result as JSON to
//! $VERIF_OUT; run.py turns that into the evidence file and the verdict.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
        if !QUIET.with(|q| *q.borrow()) {
            old(info);
        }
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

pub struct Violation {
    pub key: String,
    pub what: String,
    pub detail: Vec<String>,
}

pub struct Report {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub only_case: Option<u64>,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub rule: String,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub notes: Vec<String>,
    start: Instant,
    deadline_s: u64,
}

pub fn h64<T: Hash>(t: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn new(property: &str, rule: &str) -> Self {
        install_panic_hook();
        let env = |k: &str| std::env::var(k).ok();
        let thorough = env("VERIF_TIER").map_or(false, |t| t == "thorough");
        Self {
            property: property.into(),
            seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough,
            only_case: env("VERIF_CASE").and_then(|s| s.parse().ok()),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            rule: rule.into(),
            counters: BTreeMap::new(),
            violations: vec![],
            notes: vec![],
            start: Instant::now(),
            deadline_s: env("VERIF_BUDGET_S")
                .and_then(|s| s.parse().ok())
                .unwrap_or(if thorough { 600 } else { 60 }),
        }
    }
    /// quick count or thorough count
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if let Some(d) = std::env::var("VERIF_SCALE_DIV").ok().and_then(|d| d.parse::<u64>().ok()) {
            return (quick / d).max(1);
        }
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Exploration (not a verdict) stops here.
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed().as_secs() >= self.deadline_s
    }
    pub fn stop(&self) -> bool {
        self.violations.len() >= 5 || self.out_of_time()
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// One evaluated case, `sig` identifies what was distinct about it.
    pub fn eval<T: Hash>(&mut self, sig: T, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(h64(sig));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let n = self.samples.len();
        if n < 3 || (n < 8 && self.evaluations % 97 == 0) {
            let s = f();
            self.samples.push(s.chars().take(1500).collect());
        }
    }
    pub fn violation(&mut self, key: impl Into<String>, what: impl Into<String>, detail: Vec<String>) {
        let (key, what) = (key.into(), what.into());
        if self.violations.len() < 20 && !self.violations.iter().any(|v| v.key == key) {
            self.violations.push(Violation { key, what, detail });
        }
    }
    /// Runs one case; an `Err` or a panic in it is a violation.
    pub fn case(&mut self, key: &str, f: impl FnOnce() -> Result<(), String>) -> bool {
        match guarded(f) {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                self.violation(key, e, vec![]);
                false
            }
            Err(p) => {
                self.violation(key, format!("unexpected panic: {p}"), vec![]);
                false
            }
        }
    }
    pub fn distinct(&self) -> u64 {
        self.distinct.len() as u64
    }
    pub fn finish(self) -> ! {
        let mut o = String::from("{");
        let q = |s: &str| -> String {
            let mut r = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => r.push_str("\\\""),
                    '\\' => r.push_str("\\\\"),
                    '\n' => r.push_str("\\n"),
                    c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
                    c => r.push(c),
                }
            }
            r.push('"');
            r
        };
        let list = |v: &[String]| -> String {
            format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
        };
        o.push_str(&format!("\"evaluations\":{},", self.evaluations));
        o.push_str(&format!("\"distinct_nontrivial\":{},", self.distinct.len()));
        o.push_str(&format!("\"rule\":{},", q(&self.rule)));
        o.push_str(&format!("\"samples\":{},", list(&self.samples)));
        o.push_str(&format!("\"notes\":{},", list(&self.notes)));
        o.push_str(&format!(
            "\"counters\":{{{}}},",
            self.counters
                .iter()
                .map(|(k, v)| format!("{}:{}", q(k), v))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"violations\":[{}]}}",
            self.violations
                .iter()
                .map(|v| format!(
                    "{{\"key\":{},\"what\":{},\"detail\":{}}}",
                    q(&v.key),
                    q(&v.what),
                    list(&v.detail)
                ))
                .collect::<Vec<_>>()
                .join(",")
        ));
        match std::env::var("VERIF_OUT") {
            Ok(p) => std::fs::write(p, o).expect("write result"),
            Err(_) => println!("{o}"),
        }
        std::process::exit(0)
    }
}
