//! Drives proptest over several worker threads, counts what was generated, shrinks
//! failures and turns them into replay files.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub workers: usize,
    pub journal_dir: PathBuf,
}

impl Ctx {
    /// number of cases for this tier
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        match self.tier {
            // as many as fit half a minute or so
            Tier::Quick => {
                let k = match self.id.as_str() {
                    "P02" | "P15" => 15.0,
                    "P05" | "P06" | "P12" | "P13" | "P17" => 8.0,
                    "P04" | "P16" | "P18" | "P21" => 5.0,
                    "P14" | "P20" => 3.0,
                    "P07" | "P08" => 2.0,
                    "P09" | "P10" | "P19" => 1.5,
                    _ => 1.0,
                };
                ((quick as f64 * k) as u32).min(thorough)
            }
            Tier::Thorough => thorough,
        }
    }
}

/// what a check says about a case that passed
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// property checks made inside of this case, if more than one
    pub evals: u64,
}

impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, labels: vec![], evals: 1 }
    }
    pub fn label(mut self, l: &'static str, on: bool) -> Info {
        if on {
            self.labels.push(l);
        }
        self
    }
}

pub struct Failure {
    pub case: Value,
    pub msg: String,
}

#[derive(Default)]
pub struct Report {
    pub cases: u64,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub rule: Vec<String>,
    pub samples: Vec<Value>,
    pub labels: BTreeMap<String, u64>,
    pub exhaustive: bool,
    pub assumptions: Vec<String>,
    pub failure: Option<Failure>,
    pub extra: BTreeMap<String, Value>,
    /// known findings met: name, what fails
    pub known: Vec<(String, String)>,
}

pub type CheckResult = Result<Info, String>;

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
    x ^ x >> 31
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    splitmix(h)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static OTHER_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// keeps panics of the code under test off the terminal and remembers their text
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        let msg = msg.replace('\n', " ");
        LAST_PANIC.with(|l| *l.borrow_mut() = msg.clone());
        if !msg.contains("scoped thread panicked") && !msg.contains("worker of the harness failed") {
            *OTHER_PANIC.lock().unwrap() = msg;
        }
    }));
}

/// runs code under test; a panic becomes an error
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let mut m = LAST_PANIC.with(|l| l.borrow().clone());
            if m.contains("scoped thread panicked") || m.contains("worker of the harness failed") {
                m = OTHER_PANIC.lock().unwrap().clone();
            }
            Err(format!("panic in the code under test: {m}"))
        }
    }
}

/// where a worker notes the case it is on, so that a crash can be reproduced
pub struct Journal(Option<std::fs::File>);

impl Journal {
    pub fn open(ctx: &Ctx, worker: usize) -> Journal {
        let p = ctx.journal_dir.join(format!("{}-{}", ctx.id, worker));
        Journal(std::fs::File::create(p).ok())
    }
    pub fn note(&mut self, case: &str) {
        set_current(case);
        if let Some(f) = &mut self.0 {
            let text = format!("{}\n{}\n", case.len(), case);
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(text.as_bytes());
        }
    }
    pub fn read(path: &std::path::Path) -> Option<String> {
        let s = std::fs::read(path).ok()?;
        let nl = s.iter().position(|&b| b == b'\n')?;
        let n: usize = std::str::from_utf8(&s[..nl]).ok()?.parse().ok()?;
        String::from_utf8(s.get(nl + 1..nl + 1 + n)?.to_vec()).ok()
    }
}

thread_local! {
    static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
}
/// where `hard_failure` leaves its finding; not set in a replay
pub static HARD_OUT: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

pub fn set_current(case: &str) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(case);
    });
    SLOT.with(|s| {
        let mut slot = s.lock().unwrap();
        slot.0 = Instant::now();
        slot.1.clear();
        if case != "null" {
            slot.1.push_str(case);
        }
    });
}

pub fn current_case() -> String {
    CURRENT.with(|c| c.borrow().clone())
}

/// since when a thread is on which case (empty: on none)
type Slot = Arc<Mutex<(Instant, String)>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: Slot = {
        let slot = Arc::new(Mutex::new((Instant::now(), String::new())));
        SLOTS.lock().unwrap().push(slot.clone());
        slot
    };
}

/// Watches from a thread of its own for cases that do not end or use up the memory.
pub fn watchdog(limit: Duration, max_bytes: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let statm = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
        let pages: u64 = statm.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        let slots: Vec<Slot> = SLOTS.lock().unwrap().clone();
        let mut oldest: Option<(Duration, String)> = None;
        for slot in &slots {
            let s = slot.lock().unwrap();
            let t = s.0.elapsed();
            if !s.1.is_empty() && oldest.as_ref().map_or(true, |o| t > o.0) {
                oldest = Some((t, s.1.clone()));
            }
        }
        let Some((t, case)) = oldest else { continue };
        let case: Value = serde_json::from_str(&case).unwrap_or(Value::Null);
        if t > limit {
            end_with(case, &format!("no end after {} s", t.as_secs()));
        }
        if pages * 4096 > max_bytes {
            end_with(case, &format!("{} MB of memory are in use, and no end after {} ms", pages >> 8, t.as_millis()));
        }
    });
}

/// Ends the process from inside of a call that would not return: a violation by the case
/// that this thread is on.
pub fn hard_failure(msg: &str) -> ! {
    end_with(CURRENT.with(|c| serde_json::from_str(&c.borrow()).unwrap_or(Value::Null)), msg)
}

fn end_with(case: Value, msg: &str) -> ! {
    match HARD_OUT.get() {
        Some(p) => {
            let _ = std::fs::write(p, json!({"case": case, "msg": msg}).to_string());
            std::process::exit(10)
        }
        None => {
            println!("FAIL {msg}");
            std::process::exit(1)
        }
    }
}

/// stop all workers of the process at the next case: one has failed
static STOP: AtomicBool = AtomicBool::new(false);
pub fn stopping() -> bool {
    STOP.load(Ordering::Relaxed)
}
pub fn stop() {
    STOP.store(true, Ordering::Relaxed)
}

pub struct Pbt<'a> {
    pub kind: &'static str,
    /// over all workers
    pub cases: u32,
    pub workers: usize,
    pub shrink_iters: u32,
    pub rule: &'a str,
}

/// Checks `cases` generated cases. Case files are {"kind": .., "case": ..}.
pub fn pbt<T, S>(
    ctx: &Ctx,
    rep: &mut Report,
    p: Pbt,
    strategy: impl Fn() -> S + Sync,
    check: impl Fn(&T) -> CheckResult + Sync,
) where
    T: Debug + Serialize + Clone + Send,
    S: Strategy<Value = T>,
{
    rep.rule.push(format!("[{}] {}", p.kind, p.rule));
    if rep.failure.is_some() {
        return;
    }
    struct Out {
        cases: u64,
        evals: u64,
        set: HashSet<u64>,
        labels: BTreeMap<String, u64>,
        samples: Vec<Value>,
        failure: Option<Failure>,
    }
    let workers = p.workers.min(p.cases as usize).max(1);
    let outs: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (strategy, check, p) = (&strategy, &check, &p);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut journal = Journal::open(ctx, w);
                        let mut seed = [0u8; 32];
                        let base = splitmix(ctx.seed) ^ hash_str(&format!("{}/{}/{}", ctx.id, p.kind, w));
                        for i in 0..4 {
                            seed[8 * i..8 * i + 8].copy_from_slice(&splitmix(base + i as u64).to_le_bytes());
                        }
                        let n = p.cases / workers as u32 + u32::from((w as u32) < p.cases % workers as u32);
                        let config = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: p.shrink_iters,
                            max_shrink_time: 60_000,
                            max_global_rejects: 1,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                        let out = RefCell::new(Out {
                            cases: 0,
                            evals: 0,
                            set: HashSet::new(),
                            labels: BTreeMap::new(),
                            samples: vec![],
                            failure: None,
                        });
                        let failing = std::cell::Cell::new(false);
                        let last = RefCell::new(String::new());
                        let journal = RefCell::new(&mut journal);
                        let res = runner.run(&strategy(), |v| {
                            if stopping() && !failing.get() {
                                return Ok(());
                            }
                            let text = serde_json::to_string(&json!({"kind": p.kind, "case": &v})).unwrap();
                            journal.borrow_mut().note(&text);
                            let r = match guard(|| check(&v)) {
                                Ok(r) => r,
                                Err(e) => Err(e),
                            };
                            match r {
                                Ok(info) => {
                                    if !failing.get() {
                                        let mut o = out.borrow_mut();
                                        o.cases += 1;
                                        o.evals += info.evals.max(1);
                                        for l in &info.labels {
                                            *o.labels.entry(format!("{}:{}", p.kind, l)).or_default() += 1;
                                        }
                                        if info.nontrivial {
                                            *o.labels.entry(format!("{}:nontrivial", p.kind)).or_default() += 1;
                                            if o.set.insert(hash_str(&text)) && w == 0 && o.samples.len() < 3 && text.len() < 3000 {
                                                o.samples.push(serde_json::from_str(&text).unwrap());
                                            }
                                        }
                                    }
                                    Ok(())
                                }
                                Err(e) => {
                                    failing.set(true);
                                    stop();
                                    *last.borrow_mut() = e.clone();
                                    Err(TestCaseError::fail(e))
                                }
                            }
                        });
                        let mut out = out.into_inner();
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, min)) => {
                                out.failure = Some(Failure {
                                    case: json!({"kind": p.kind, "case": min}),
                                    msg: reason.message().to_string(),
                                });
                            }
                            Err(TestError::Abort(r)) => panic!("generator aborted: {r}"),
                            #[allow(unreachable_patterns)]
                            Err(e) => panic!("generator error: {e:?}"),
                        }
                        journal.borrow_mut().note("null");
                        out
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker of the harness failed")).collect()
    });
    let mut set = HashSet::new();
    for o in outs {
        rep.cases += o.cases;
        rep.evaluations += o.evals;
        set.extend(o.set);
        for (k, v) in o.labels {
            *rep.labels.entry(k).or_default() += v;
        }
        rep.samples.extend(o.samples);
        if let Some(f) = o.failure {
            let better = match &rep.failure {
                None => true,
                Some(g) => f.case.to_string().len() < g.case.to_string().len(),
            };
            if better {
                rep.failure = Some(f);
            }
        }
    }
    rep.distinct_nontrivial += set.len() as u64;
}

/// Checks an explicitly enumerated list of cases in parallel
pub fn each<T>(ctx: &Ctx, rep: &mut Report, kind: &'static str, rule: &str, cases: Vec<T>, check: impl Fn(&T) -> CheckResult + Sync)
where
    T: Debug + Serialize + Clone + Send + Sync,
{
    rep.rule.push(format!("[{kind}] {rule}"));
    if rep.failure.is_some() {
        return;
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let merged = std::sync::Mutex::new(rep);
    std::thread::scope(|sc| {
        for w in 0..ctx.workers {
            let (next, merged, cases, check) = (&next, &merged, &cases, &check);
            sc.spawn(move || {
                let mut journal = Journal::open(ctx, w);
                let (mut n, mut evals, mut nt) = (0, 0, 0);
                let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                let mut fail: Option<(usize, Failure)> = None;
                let mut samples = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() || stopping() {
                        break;
                    }
                    let v = &cases[i];
                    let value = json!({"kind": kind, "case": v});
                    journal.note(&value.to_string());
                    let r = match guard(|| check(v)) {
                        Ok(r) => r,
                        Err(e) => Err(e),
                    };
                    match r {
                        Ok(info) => {
                            n += 1;
                            evals += info.evals.max(1);
                            for l in info.labels {
                                *labels.entry(format!("{kind}:{l}")).or_default() += 1;
                            }
                            if info.nontrivial {
                                nt += 1;
                                if w == 0 && samples.len() < 2 {
                                    samples.push(value);
                                }
                            }
                        }
                        Err(msg) => {
                            fail = Some((i, Failure { case: value, msg }));
                            stop();
                            break;
                        }
                    }
                }
                journal.note("null");
                let mut rep = merged.lock().unwrap();
                rep.cases += n;
                rep.evaluations += evals;
                rep.distinct_nontrivial += nt;
                rep.samples.extend(samples);
                for (k, v) in labels {
                    *rep.labels.entry(k).or_default() += v;
                }
                if let Some((_, f)) = fail {
                    if rep.failure.is_none() {
                        rep.failure = Some(f);
                    }
                }
            });
        }
    });
}

pub fn from_case<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).expect("replay file does not fit the case type")
}
