use json::{object, JsonValue};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// What one case did, in readable form; also counts evaluated postconditions.
pub struct Log {
    pub ops: Vec<String>,
    pub checks: u64,
    pub interesting: bool,
    pub thread: usize,
    pub dir: String,
}
impl Log {
    pub fn op(&mut self, s: impl Into<String>) {
        self.ops.push(s.into());
    }
}

pub type CaseFn = fn(u64, &mut Rng, &mut Log) -> Result<(), String>;

pub struct Fail {
    pub case: u64,
    pub msg: String,
    pub ops: Vec<String>,
}
pub struct Report {
    pub prop: String,
    pub seed: u64,
    pub cases: u64,
    pub nontrivial: u64,
    pub checks: u64,
    pub samples: Vec<(u64, Vec<String>)>,
    pub fails: Vec<Fail>,
    pub secs: f64,
    pub cut_short: bool,
}
impl Report {
    pub fn to_json(&self) -> JsonValue {
        object! {
            property: self.prop.clone(), seed: self.seed, cases: self.cases, distinct_nontrivial: self.nontrivial,
            postconditions_evaluated: self.checks, secs: self.secs, cut_short: self.cut_short,
            samples: self.samples.iter().map(|(c, o)| object!{case: *c, ops: o.clone()}).collect::<Vec<_>>(),
            fails: self.fails.iter().map(|f| object!{case: f.case, msg: f.msg.clone(), ops: f.ops.clone()}).collect::<Vec<_>>(),
        }
    }
}

thread_local! {
    pub static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|m| *m.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn run(prop: &str, f: CaseFn, seed: u64, n: u64, only: Option<u64>, secs: f64) -> Report {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
    let base = std::env::var("ORACLE_SCRATCH").unwrap_or_else(|_| format!("/tmp/oracle.{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let next = AtomicU64::new(0);
    let start = Instant::now();
    let case_limit: f64 = std::env::var("ORACLE_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(90.0);
    let trace = std::env::var("ORACLE_TRACE").ok();
    type Acc = (u64, u64, BTreeSet<u64>, BTreeMap<u64, Vec<String>>, Vec<Fail>, bool);
    let acc: Mutex<Acc> = Mutex::new((0, 0, BTreeSet::new(), BTreeMap::new(), Vec::new(), false));
    let threads = if only.is_some() || trace.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
    // (case, start) of the case each thread is working on, for the watchdog
    let current: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        let (current, done, trace) = (&current, &done, &trace);
        s.spawn(move || {
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for c in current.iter() {
                    if let Some((k, t0)) = *c.lock().unwrap() {
                        if t0.elapsed().as_secs_f64() > case_limit {
                            let rep = Report {
                                prop: prop.into(), seed, cases: k, nontrivial: 0, checks: 0, samples: vec![],
                                fails: vec![Fail { case: k, msg: format!("the code did not return within {case_limit} s on a valid input"), ops: vec![] }],
                                secs: start.elapsed().as_secs_f64(), cut_short: true,
                            };
                            let js = rep.to_json().pretty(2);
                            match std::env::var("ORACLE_OUT") {
                                Ok(o) => std::fs::write(o, js).unwrap(),
                                Err(_) => println!("{js}"),
                            }
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
        for t in 0..threads {
            let dir = format!("{base}/t{t}");
            std::fs::create_dir_all(&dir).unwrap();
            let (next, acc) = (&next, &acc);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || { loop {
                    let k = match only {
                        Some(k) => {
                            if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                break;
                            }
                            k
                        }
                        None => next.fetch_add(1, Ordering::SeqCst),
                    };
                    if only.is_none() && k >= n {
                        break;
                    }
                    if start.elapsed().as_secs_f64() > secs {
                        acc.lock().unwrap().5 = true;
                        break;
                    }
                    if acc.lock().unwrap().4.len() >= 3 {
                        break;
                    }
                    let mut rng = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash_str(prop) ^ k.wrapping_mul(0xD6E8FEB86659FD93));
                    rng.next();
                    if let Some(tr) = trace {
                        std::fs::write(tr, k.to_string()).unwrap();
                    }
                    *current[t].lock().unwrap() = Some((k, Instant::now()));
                    let mut log = Log { ops: vec![], checks: 0, interesting: true, thread: t, dir: dir.clone() };
                    let r = guard(|| f(k, &mut rng, &mut log)).unwrap_or_else(|p| Err(format!("the code aborted on a valid input: {p}")));
                    *current[t].lock().unwrap() = None;
                    let mut a = acc.lock().unwrap();
                    a.0 += 1;
                    a.1 += log.checks;
                    if log.interesting {
                        a.2.insert(hash_str(&log.ops.join("\n")));
                    }
                    if a.3.len() < 3 || k < *a.3.keys().last().unwrap() {
                        a.3.insert(k, log.ops.clone());
                        if a.3.len() > 3 {
                            let last = *a.3.keys().last().unwrap();
                            a.3.remove(&last);
                        }
                    }
                    if let Err(msg) = r {
                        a.4.push(Fail { case: k, msg, ops: log.ops });
                    }
                }
                done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    let _ = std::fs::remove_dir_all(&base);
    let (cases, checks, set, samples, mut fails, cut) = acc.into_inner().unwrap();
    fails.sort_by_key(|f| f.case);
    Report {
        prop: prop.into(),
        seed,
        cases,
        nontrivial: set.len() as u64,
        checks,
        samples: samples.into_iter().map(|(k, mut o)| { o.truncate(30); (k, o) }).collect(),
        fails,
        secs: start.elapsed().as_secs_f64(),
        cut_short: cut,
    }
}

/// Evaluate one postcondition.
#[macro_export]
macro_rules! ck {
    ($log:expr, $cond:expr, $($fmt:tt)*) => {{
        $log.checks += 1;
        if !($cond) {
            return Err(format!($($fmt)*));
        }
    }};
}
