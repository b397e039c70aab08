//! Generic machinery: sharded proptest runs, shrinking, statistics, replay files, evidence.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The outcome notes of one case, filled in by a check.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<&'static str>,
    counts: Vec<(&'static str, u64)>,
    maxima: Vec<(&'static str, f64)>,
}

impl Obs {
    /// Marks the case as non-trivial by the part's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Counts this case under a label (at most once per case).
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Adds to a running total.
    pub fn count(&mut self, l: &'static str, n: u64) {
        if let Some(c) = self.counts.iter_mut().find(|c| c.0 == l) {
            c.1 += n;
        } else {
            self.counts.push((l, n));
        }
    }
    /// Tracks the largest value seen of a measured quantity.
    pub fn max(&mut self, l: &'static str, v: f64) {
        if let Some(c) = self.maxima.iter_mut().find(|c| c.0 == l) {
            c.1 = c.1.max(v);
        } else {
            self.maxima.push((l, v));
        }
    }
}

pub type Check<C> = fn(&C, &mut Obs) -> Result<(), String>;

/// One part of a property: a generator, a check, case counts and the rule for non-triviality.
pub struct Part<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: Check<C>,
}

/// Type-erased part.
pub trait AnyPart: Send + Sync {
    fn name(&self) -> &'static str;
    fn run(&self, cx: &Cx) -> PartReport;
    fn replay(&self, case: &Value) -> Result<(), String>;
}

pub struct Cx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub shards: u32,
    /// Multiplies the number of cases.
    pub scale: f64,
    /// If set, the case about to be executed is written here first (crash attribution).
    pub trace: Option<String>,
}

#[derive(Default)]
pub struct PartReport {
    pub name: &'static str,
    pub rule: &'static str,
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, f64>,
    pub samples: Vec<Value>,
    pub failure: Option<(String, Value)>,
    pub shrink_evals: u64,
    pub error: Option<String>,
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, f64>,
    samples: Vec<Value>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs a check on a case, turning panics into failures.
pub fn guarded<C>(check: Check<C>, case: &C, obs: &mut Obs) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| check(case, obs)));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

fn hash_json(v: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl<C> AnyPart for Part<C>
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, case: &Value) -> Result<(), String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay: {e}"))?;
        guarded(self.check, &case, &mut Obs::default())
    }

    fn run(&self, cx: &Cx) -> PartReport {
        let total = match cx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * cx.scale).ceil() as u32).max(1);
        let shards = cx.shards.min(total).max(1);
        let base = mix(
            mix(cx.seed, hash_json(&cx.prop)),
            mix(hash_json(self.name), 17),
        );

        let agg = Mutex::new(Agg::default());
        let failures: Mutex<Vec<(u32, String, C)>> = Mutex::new(vec![]);
        let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
        let stop = AtomicBool::new(false);
        let shrink_evals = AtomicU64::new(0);

        std::thread::scope(|s| {
            for shard in 0..shards {
                let agg = &agg;
                let failures = &failures;
                let errors = &errors;
                let stop = &stop;
                let shrink_evals = &shrink_evals;
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                let _ = builder.spawn_scoped(s, move || {
                    let cases = total / shards + u32::from(shard < total % shards);
                    let config = Config {
                        cases,
                        failure_persistence: None,
                        max_shrink_iters: 4000,
                        max_shrink_time: 60_000,
                        max_global_rejects: 1_000_000,
                        rng_seed: RngSeed::Fixed(mix(base, shard as u64)),
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new(config);
                    let failed_here = std::cell::Cell::new(false);
                    let strategy = (self.strategy)();
                    let result = runner.run(&strategy, |case| {
                        if !failed_here.get() && stop.load(Ordering::Relaxed) {
                            // Another shard has found a failure; nothing more to learn here.
                            return Ok(());
                        }
                        let text = serde_json::to_string(&case).unwrap();
                        if let Some(path) = &cx.trace {
                            let v = json!({"property": cx.prop, "part": self.name,
                                "message": "process died while running this case",
                                "case": &case});
                            let _ = std::fs::write(
                                format!("{path}.{shard}"),
                                serde_json::to_string_pretty(&v).unwrap(),
                            );
                        }
                        let mut obs = Obs::default();
                        let token = watchdog_enter(&cx.prop, self.name, shard);
                        let r = guarded(self.check, &case, &mut obs);
                        watchdog_leave(token);
                        if failed_here.get() {
                            shrink_evals.fetch_add(1, Ordering::Relaxed);
                        } else {
                            let mut a = agg.lock().unwrap();
                            a.evaluations += 1;
                            if obs.nontrivial && a.distinct.insert(hash_json(&text)) {
                                if a.samples.len() < 3 && text.len() < 6000 {
                                    a.samples.push(serde_json::from_str(&text).unwrap());
                                }
                            }
                            for l in obs.labels {
                                *a.labels.entry(l).or_default() += 1;
                            }
                            for (l, n) in obs.counts {
                                *a.counts.entry(l).or_default() += n;
                            }
                            for (l, v) in obs.maxima {
                                let e = a.maxima.entry(l).or_insert(v);
                                *e = e.max(v);
                            }
                        }
                        r.map_err(|m| {
                            failed_here.set(true);
                            stop.store(true, Ordering::Relaxed);
                            TestCaseError::fail(m)
                        })
                    });
                    match result {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => failures.lock().unwrap().push((
                            shard,
                            reason.message().to_string(),
                            case,
                        )),
                        Err(TestError::Abort(reason)) => {
                            errors.lock().unwrap().push(reason.message().to_string())
                        }
                    }
                }).unwrap();
            }
        });

        let a = agg.into_inner().unwrap();
        let mut failures = failures.into_inner().unwrap();
        failures.sort_by_key(|f| {
            (
                serde_json::to_string(&f.2).map(|s| s.len()).unwrap_or(0),
                f.0,
            )
        });
        PartReport {
            name: self.name,
            rule: self.rule,
            evaluations: a.evaluations,
            distinct: a.distinct.len() as u64,
            labels: a.labels,
            counts: a.counts,
            maxima: a.maxima,
            samples: a.samples,
            failure: failures.into_iter().next().map(|(_, m, c)| {
                // Re-run the shrunk case so the message belongs to it.
                let m2 = guarded(self.check, &c, &mut Obs::default())
                    .err()
                    .unwrap_or(m);
                (m2, serde_json::to_value(&c).unwrap())
            }),
            shrink_evals: shrink_evals.into_inner(),
            error: errors.into_inner().unwrap().into_iter().next(),
        }
    }
}

// --- Watchdog: a case that does not finish is an error of the run, never a violation. ---

static WATCH: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(vec![]);

fn watchdog_enter(prop: &str, part: &str, shard: u32) -> usize {
    let mut w = WATCH.lock().unwrap();
    let entry = Some((Instant::now(), format!("{prop}/{part} shard {shard}")));
    if let Some(i) = w.iter().position(|e| e.is_none()) {
        w[i] = entry;
        i
    } else {
        w.push(entry);
        w.len() - 1
    }
}

fn watchdog_leave(i: usize) {
    WATCH.lock().unwrap()[i] = None;
}

pub fn start_watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let w = WATCH.lock().unwrap();
        for (start, what) in w.iter().flatten() {
            if start.elapsed() > limit {
                eprintln!("INCONCLUSIVE: a case of {what} did not finish within {limit:?}");
                std::process::exit(3);
            }
        }
    });
}

/// Whether known findings are reported like any other violation.
static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Makes known findings fail (or not) from now on.
pub fn set_strict(strict: bool) {
    STRICT.store(strict, std::sync::atomic::Ordering::SeqCst);
}

/// The findings of this property that are known and not repaired: (key, what fails).
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let file = std::env::var("VERIF_KNOWN").unwrap_or("/verif/known-findings.txt".to_string());
    let head = format!("known: property={id} ");
    std::fs::read_to_string(file)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&head)?.split_once(": "))
        .map(|(k, what)| (k.to_string(), what.to_string()))
        .collect()
}

/// Whether the finding is listed as known, so that it is not reported as a violation.
pub fn is_known(id: &str, key: &str) -> bool {
    static ALL: std::sync::OnceLock<std::sync::Mutex<std::collections::HashMap<String, Vec<(String, String)>>>> =
        std::sync::OnceLock::new();
    if STRICT.load(std::sync::atomic::Ordering::SeqCst) {
        return false;
    }
    let mut all = ALL.get_or_init(Default::default).lock().unwrap();
    all.entry(id.to_string())
        .or_insert_with(|| known_findings(id))
        .iter()
        .any(|f| f.0 == key)
}
