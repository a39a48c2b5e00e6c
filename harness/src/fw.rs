//! Property-based search framework: every property is a list of jobs; a job is a named input space (one f64 per
//! dimension, generated and shrunk by proptest) plus an oracle closure. Every run is a pure function of the code
//! under test and VERIF_SEED.
use proptest::prelude::*;
use proptest::strategy::Union;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Dist {
    Lin(f64, f64),
    Log(f64, f64),
    Int(i64, i64),
    Pick(Vec<f64>),
    Mix(Vec<Dist>),
}
pub use Dist::*;

#[derive(Clone, Debug)]
pub struct Dim {
    pub name: &'static str,
    pub dist: Dist,
}
pub fn dim(name: &'static str, dist: Dist) -> Dim {
    Dim { name, dist }
}

fn strat(d: &Dist) -> BoxedStrategy<f64> {
    match d {
        Lin(a, b) => (*a..=*b).boxed(),
        Log(a, b) => (a.ln()..=b.ln()).prop_map(|x: f64| x.exp()).boxed(),
        Int(a, b) => (*a..=*b).prop_map(|x| x as f64).boxed(),
        Pick(v) => proptest::sample::select(v.clone()).boxed(),
        Mix(v) => Union::new(v.iter().map(strat).collect::<Vec<_>>()).boxed(),
    }
}

/// What one evaluation of the oracle says.
pub enum Out {
    /// held; class for the distribution report; ratio = worst |error|/tolerance
    Ok(&'static str, f64),
    /// the generated input lies outside the domain of the property (counted, never non-trivial)
    Skip,
    Fail(String),
}

/// Accumulates comparisons of one case.
pub struct C {
    pub ratio: f64,
    pub msg: Option<String>,
}
impl C {
    pub fn new() -> C {
        C { ratio: 0.0, msg: None }
    }
    pub fn fail(&mut self, m: String) {
        if self.msg.is_none() {
            self.msg = Some(m);
        }
    }
    pub fn near(&mut self, what: &str, got: f64, want: f64, tol: f64) {
        let e = (got - want).abs();
        if e.is_finite() && tol.is_finite() && e <= tol {
            let r = e / tol;
            if r > self.ratio {
                self.ratio = r;
            }
        } else {
            self.fail(format!("{what}: got {got:e}, expected {want:e} (difference {e:e}, tolerance {tol:e})"));
        }
    }
    pub fn rel(&mut self, what: &str, got: f64, want: f64, rel: f64, abs: f64) {
        self.near(what, got, want, rel * want.abs() + abs);
    }
    pub fn yes(&mut self, what: &str, b: bool) {
        if !b {
            self.fail(what.to_string());
        }
    }
    pub fn done(self, class: &'static str) -> Out {
        match self.msg {
            Some(m) => Out::Fail(m),
            None => Out::Ok(class, self.ratio),
        }
    }
}

pub type Oracle = dyn Fn(&[f64]) -> Out + Send + Sync;
pub struct Job {
    pub label: String,
    pub dims: Vec<Dim>,
    pub cases: u32,
    pub f: Arc<Oracle>,
}
pub fn job(label: impl Into<String>, cases: u32, dims: Vec<Dim>, f: impl Fn(&[f64]) -> Out + Send + Sync + 'static) -> Job {
    Job { label: label.into(), dims, cases, f: Arc::new(f) }
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub verbose: bool,
}
impl Ctx {
    /// number of cases: quick, thorough
    pub fn n(&self, quick: u32) -> u32 {
        // what a run of half a minute allows
        let quick = quick.saturating_mul(match self.id.as_str() {
            "C01" => 4,
            "C03" | "C04" | "C11" | "C20" => 3,
            "C07" | "C12" | "C23" => 4,
            "C09" => 30,
            "C14" | "C15" | "C18" | "C19" => 15,
            "C05" | "C24" | "C27" | "C28" => 2,
            _ => 1,
        });
        if self.thorough {
            quick.saturating_mul(8)
        } else {
            quick
        }
    }
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// Runs f, turning a panic of the code under test into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn eval(f: &Oracle, v: &[f64]) -> Out {
    match guarded(|| f(v)) {
        Ok(o) => o,
        Err(m) => Out::Fail(format!("panic: {m}")),
    }
}

#[derive(Default)]
struct Stat {
    evals: u64,
    nontrivial: HashSet<u64>,
    skipped: u64,
    classes: BTreeMap<&'static str, u64>,
    worst: f64,
    worst_at: Vec<f64>,
    sample: Option<Vec<f64>>,
}
pub struct Failure {
    pub label: String,
    pub input: Vec<f64>,
    pub msg: String,
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn hash_in(v: &[f64]) -> u64 {
    v.iter().fold(0xcbf29ce484222325, |h, x| (h ^ x.to_bits()).wrapping_mul(0x100000001b3).rotate_left(23))
}

fn run_shard(ctx: &Ctx, j: &Job, shard: usize, cases: u32) -> (Stat, Option<Failure>) {
    let stat = RefCell::new(Stat::default());
    let mut seed = [0u8; 32];
    seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
    seed[8..16].copy_from_slice(&fnv(&format!("{}/{}", ctx.id, j.label)).to_le_bytes());
    seed[16..24].copy_from_slice(&(shard as u64).to_le_bytes());
    let config = Config { cases, failure_persistence: None, max_shrink_iters: 3000, max_shrink_time: 20_000, max_global_rejects: u32::MAX, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let s: Vec<BoxedStrategy<f64>> = j.dims.iter().map(|d| strat(&d.dist)).collect();
    let res = runner.run(&s, |v| {
        let o = eval(&*j.f, &v);
        let mut st = stat.borrow_mut();
        st.evals += 1;
        match o {
            Out::Ok(c, r) => {
                *st.classes.entry(c).or_default() += 1;
                st.nontrivial.insert(hash_in(&v));
                if r > st.worst {
                    st.worst = r;
                    st.worst_at = v.clone();
                }
                if st.sample.is_none() {
                    st.sample = Some(v);
                }
                Ok(())
            }
            Out::Skip => {
                st.skipped += 1;
                Ok(())
            }
            Out::Fail(m) => Err(TestCaseError::fail(m)),
        }
    });
    let fail = match res {
        Ok(()) => None,
        Err(TestError::Fail(_, v)) => {
            let msg = match eval(&*j.f, &v) {
                Out::Fail(m) => m,
                _ => "failure did not reproduce on the shrunk input".into(),
            };
            Some(Failure { label: j.label.clone(), input: v, msg })
        }
        Err(TestError::Abort(r)) => {
            eprintln!("ERROR: {}: aborted: {r}", j.label);
            std::process::exit(2);
        }
    };
    (stat.into_inner(), fail)
}

pub struct Report {
    pub failures: Vec<Failure>,
    pub evidence: Value,
}

pub fn named(j: &Job, v: &[f64]) -> Value {
    let mut m = serde_json::Map::new();
    for (d, x) in j.dims.iter().zip(v) {
        m.insert(d.name.to_string(), json!(x));
    }
    Value::Object(m)
}

pub fn run_jobs(ctx: &Ctx, jobs: &[Job]) -> Report {
    // shard every job so that the work spreads over the cores, independently of how many cores there are
    let mut work: Vec<(usize, usize, u32)> = vec![];
    for (i, j) in jobs.iter().enumerate() {
        let shards = (j.cases / 50).max((j.cases / 4).min(8)).clamp(1, 16) as usize;
        for s in 0..shards {
            let lo = (j.cases as u64 * s as u64 / shards as u64) as u32;
            let hi = (j.cases as u64 * (s as u64 + 1) / shards as u64) as u32;
            work.push((i, s, hi - lo));
        }
    }
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<(usize, usize, Stat, Option<Failure>, f64)>> = Mutex::new(vec![]);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).max(2);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(sc, || loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= work.len() {
                    break;
                }
                let (i, s, n) = work[k];
                let t = std::time::Instant::now();
                let (st, f) = run_shard(ctx, &jobs[i], s, n);
                res.lock().unwrap().push((i, s, st, f, t.elapsed().as_secs_f64()));
            })
            .unwrap();
        }
    });
    let mut res = res.into_inner().unwrap();
    res.sort_by_key(|r| (r.0, r.1));
    let mut failures: Vec<Failure> = vec![];
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut per = serde_json::Map::new();
    let mut samples = vec![];
    for (i, j) in jobs.iter().enumerate() {
        let mut tot = Stat::default();
        let mut failed = false;
        let mut secs = 0.0;
        for r in res.iter_mut().filter(|r| r.0 == i) {
            let st = std::mem::take(&mut r.2);
            secs += r.4;
            tot.evals += st.evals;
            tot.skipped += st.skipped;
            tot.nontrivial.extend(st.nontrivial);
            for (c, n) in st.classes {
                *tot.classes.entry(c).or_default() += n;
            }
            if st.worst > tot.worst {
                tot.worst = st.worst;
                tot.worst_at = st.worst_at;
            }
            if tot.sample.is_none() {
                tot.sample = st.sample;
            }
            if let Some(f) = r.3.take() {
                if !failed {
                    failures.push(f);
                }
                failed = true;
            }
        }
        evals += tot.evals;
        nontriv += tot.nontrivial.len() as u64;
        if samples.len() < 12 {
            if let Some(s) = &tot.sample {
                samples.push(json!({"check": j.label, "input": named(j, s)}));
            }
        }
        if ctx.verbose {
            println!(
                "{:<95} n={:<7} nt={:<7} skip={:<5} worst={:.3} {:.1}s {:?}{}",
                j.label,
                tot.evals,
                tot.nontrivial.len(),
                tot.skipped,
                tot.worst,
                secs,
                tot.classes,
                if tot.worst > 0.3 { format!(" at {}", named(j, &tot.worst_at)) } else { String::new() }
            );
        }
        per.insert(
            j.label.clone(),
            json!({"evaluations": tot.evals, "distinct_nontrivial": tot.nontrivial.len(), "outside_domain": tot.skipped,
                   "classes": tot.classes, "worst_error_over_tolerance": tot.worst}),
        );
    }
    Report {
        failures,
        evidence: json!({"evaluations": evals, "distinct_nontrivial": nontriv, "samples": samples, "per_check": per}),
    }
}
