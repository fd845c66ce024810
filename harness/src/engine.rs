//! Property engine: fixed-work generated search, shrinking, replay, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static STOP: AtomicBool = AtomicBool::new(false);

/// What each worker is executing and since when; a case that does not end is a failed case.
static RUNNING: Mutex<Vec<Option<(Instant, Arc<Value>)>>> = Mutex::new(Vec::new());

/// Usual cases take milliseconds, the largest a few seconds.
fn hang_limit() -> Duration {
    Duration::from_secs(std::env::var("GV_HANG").ok().and_then(|v| v.parse().ok()).unwrap_or(240))
}

struct Watched(usize);
impl Watched {
    fn start(slot: usize, js: &Arc<Value>) -> Self {
        let mut r = RUNNING.lock().unwrap();
        if r.len() <= slot {
            r.resize(slot + 1, None);
        }
        r[slot] = Some((Instant::now(), js.clone()));
        Watched(slot)
    }
}
impl Drop for Watched {
    fn drop(&mut self) {
        RUNNING.lock().unwrap()[self.0] = None;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// number of individual oracle comparisons made
    pub comparisons: u64,
}
impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn cmp(&mut self) {
        self.comparisons += 1;
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub trait Property {
    type Case: Serialize + DeserializeOwned + Debug + Clone;
    const ID: &'static str;
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// how often a failing candidate is retried (schedule-dependent properties)
    const RETRIES: u32 = 1;
    /// shards run side by side (1 for properties that own all threads)
    const SHARDS: u64 = 8;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(tier: Tier) -> u64;
    /// a second, costlier family of cases (size as such) and how many of them to run
    fn large(_tier: Tier) -> Option<(BoxedStrategy<Self::Case>, u64)> {
        None
    }
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Res;
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

fn one<P: Property>(slot: usize, js: &Arc<Value>, case: &P::Case, ctx: &mut Ctx) -> Res {
    let _w = Watched::start(slot, js);
    match catch_unwind(AssertUnwindSafe(|| P::check(case, ctx))) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_text(p))),
    }
}

fn fails<P: Property>(slot: usize, case: &P::Case) -> Option<String> {
    let js = Arc::new(serde_json::to_value(case).expect("case serialises"));
    for _ in 0..P::RETRIES.max(1) {
        let mut c = Ctx::default();
        if let Err(m) = one::<P>(slot, &js, case, &mut c) {
            return Some(m);
        }
    }
    None
}

#[derive(Default)]
struct ShardOut {
    evals: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    comparisons: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<(Value, String)>,
    reject: u64,
    large: u64,
}

fn sample_of(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 900 {
        v.clone()
    } else {
        let cut: String = s.chars().take(900).collect();
        Value::String(format!("{cut}... ({} bytes)", s.len()))
    }
}

fn account<P: Property>(o: &mut ShardOut, js: &Value, ctx: Ctx) {
    o.evals += 1;
    o.comparisons += ctx.comparisons;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    js.to_string().hash(&mut h);
    let h = h.finish();
    o.distinct.insert(h);
    for l in ctx.labels {
        *o.labels.entry(l).or_insert(0) += 1;
    }
    if ctx.nontrivial && o.nontrivial.insert(h) && o.samples.len() < 2 {
        o.samples.push(sample_of(js));
    }
}

fn shard<P: Property>(seed: u64, shard: u64, n: u64, scale: f64, tier: Tier, journal: Option<PathBuf>) -> ShardOut {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&shard.to_le_bytes());
    bytes[16..16 + P::ID.len()].copy_from_slice(P::ID.as_bytes());
    let cfg = Config { failure_persistence: None, max_local_rejects: 1_000_000, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
    let usual = P::strategy(tier);
    let (large, large_n) = match P::large(tier) {
        Some((s, k)) => (Some(s), (k as f64 * scale / P::SHARDS as f64).ceil() as u64),
        None => (None, 0),
    };
    let mut o = ShardOut::default();
    for k in 0..n + large_n {
        let strat = if k < n { &usual } else { large.as_ref().unwrap() };
        if k >= n {
            o.large += 1;
        }
        if STOP.load(Ordering::Relaxed) {
            break;
        }
        let mut tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(_) => {
                o.reject += 1;
                continue;
            }
        };
        let case = tree.current();
        let js = Arc::new(serde_json::to_value(&case).expect("case serialises"));
        if let Some(j) = &journal {
            let _ = std::fs::write(j, json!({"property": P::ID, "case": *js, "message": "process died"}).to_string());
        }
        let mut ctx = Ctx::default();
        match one::<P>(shard as usize, &js, &case, &mut ctx) {
            Ok(()) => account::<P>(&mut o, &js, ctx),
            Err(first) => {
                o.evals += 1;
                // shrink
                let mut best = case.clone();
                let mut msg = first.clone();
                let t0 = Instant::now();
                let mut iters = 0;
                if tree.simplify() {
                    loop {
                        iters += 1;
                        if iters > 4000 || t0.elapsed() > Duration::from_secs(45) {
                            break;
                        }
                        let cand = tree.current();
                        if let Some(m) = fails::<P>(shard as usize, &cand) {
                            best = cand;
                            msg = m;
                            if !tree.simplify() {
                                break;
                            }
                        } else if !tree.complicate() {
                            break;
                        }
                    }
                }
                o.failure = Some((serde_json::to_value(&best).unwrap(), msg));
                break;
            }
        }
    }
    if let Some(j) = &journal {
        let _ = std::fs::remove_file(j);
    }
    o
}

struct Args {
    mode: String,
    file: Option<String>,
    tier: Tier,
    seed: u64,
    evidence: PathBuf,
    replays: PathBuf,
    regress: PathBuf,
    journal: Option<PathBuf>,
    scale: f64,
}

fn args(id: &str) -> Args {
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let root = PathBuf::from(env("GV_ROOT", "/verif"));
    let mut a = std::env::args().skip(1);
    let mode = a.next().unwrap_or_else(|| "run".into());
    let file = a.next();
    Args {
        mode,
        file,
        tier: if env("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick },
        seed: env("VERIF_SEED", "1").parse::<u64>().unwrap_or(1),
        evidence: root.join("evidence").join(format!("{id}.json")),
        replays: root.join("replays"),
        regress: root.join("harness/regress").join(id),
        journal: std::env::var("GV_JOURNAL").ok().map(PathBuf::from),
        scale: env("GV_SCALE", "1").parse().unwrap_or(1.0),
    }
}

fn load_case<P: Property>(path: &str) -> Result<P::Case, String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let v: Value = serde_json::from_str(&t).map_err(|e| format!("{path}: {e}"))?;
    let c = v.get("case").cloned().unwrap_or(v);
    serde_json::from_value(c).map_err(|e| format!("{path}: {e}"))
}

fn write_replay(dir: &PathBuf, id: &str, case: &Value, msg: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    case.to_string().hash(&mut h);
    let p = dir.join(format!("{id}-{:016x}.json", h.finish()));
    let body = json!({"property": id, "message": msg, "case": case});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
    p
}

fn watchdog<P: Property>(a: &Args, t0: Instant) {
    let (limit, replays, evidence, seed) = (hang_limit(), a.replays.clone(), a.evidence.clone(), a.seed);
    let tier = if a.tier == Tier::Quick { "quick" } else { "thorough" };
    let given = if a.mode == "replay" { a.file.clone() } else { None };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let stuck = RUNNING.lock().unwrap().iter().flatten().find(|r| r.0.elapsed() > limit).map(|r| r.1.clone());
        if let Some(js) = stuck {
            let msg = format!("the case did not end within {} s", limit.as_secs());
            let path = match &given {
                Some(f) => PathBuf::from(f),
                None => write_replay(&replays, P::ID, &js, &msg),
            };
            if given.is_none() {
                let ev = json!({"property": P::ID, "tier": tier, "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": P::RULE, "samples": [sample_of(&js)],
                        "violation": {"replay": path.display().to_string(), "message": msg}},
                    "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
                let _ = std::fs::create_dir_all(evidence.parent().unwrap());
                let _ = std::fs::write(&evidence, serde_json::to_string_pretty(&ev).unwrap());
            }
            println!("{msg}");
            println!("VIOLATION property={} replay={}", P::ID, path.display());
            std::process::exit(1);
        }
    });
}

pub fn run_main<P: Property>() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = args(P::ID);
    let t0 = Instant::now();
    watchdog::<P>(&a, t0);
    if a.mode == "replay" {
        let path = a.file.expect("replay FILE");
        let case = match load_case::<P>(&path) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("error: {e}");
                std::process::exit(2);
            }
        };
        match fails::<P>(0, &case) {
            Some(m) => {
                println!("{m}");
                println!("VIOLATION property={} replay={}", P::ID, path);
                std::process::exit(1);
            }
            None => {
                println!("replay passes");
                std::process::exit(0);
            }
        }
    }

    let mut total = ShardOut::default();
    let mut regress_n = 0u64;
    let mut failure: Option<(Value, String)> = None;
    // 1. saved minimal failures, without the library
    let mut files: Vec<_> = std::fs::read_dir(&a.regress)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files.iter().filter(|f| f.extension().map_or(false, |e| e == "json")) {
        let case = match load_case::<P>(f.to_str().unwrap()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("error: {e}");
                std::process::exit(2);
            }
        };
        regress_n += 1;
        let js = Arc::new(serde_json::to_value(&case).unwrap());
        let journal = a.journal.as_ref().map(|p| PathBuf::from(format!("{}.regress", p.display())));
        if let Some(j) = &journal {
            let _ = std::fs::write(j, json!({"property": P::ID, "case": *js, "message": "process died"}).to_string());
        }
        for _ in 0..P::RETRIES.max(1) {
            let mut ctx = Ctx::default();
            match one::<P>(0, &js, &case, &mut ctx) {
                Ok(()) => account::<P>(&mut total, &js, ctx),
                Err(m) => {
                    failure = Some(((*js).clone(), m));
                    break;
                }
            }
        }
        if let Some(j) = &journal {
            let _ = std::fs::remove_file(j);
        }
        if failure.is_some() {
            break;
        }
    }
    // 2. generated search
    if failure.is_none() {
        let cases = ((P::cases(a.tier) as f64) * a.scale).ceil() as u64;
        let shards = P::SHARDS;
        let per = (cases + shards - 1) / shards;
        let (tx, rx) = std::sync::mpsc::channel();
        for i in 0..shards {
            let j = a.journal.as_ref().map(|p| PathBuf::from(format!("{}.{i}", p.display())));
            let (seed, tier, scale, tx) = (a.seed, a.tier, a.scale, tx.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let o = shard::<P>(seed, i, per, scale, tier, j);
                    let _ = tx.send((i, o));
                })
                .unwrap();
        }
        drop(tx);
        let mut outs: Vec<(u64, ShardOut)> = vec![];
        let mut deadline: Option<Instant> = None;
        while outs.len() < shards as usize {
            // Once one shard has a failure the others get a grace period to report theirs:
            // a case that hangs elsewhere does not hide a failure that was found.
            let r = match deadline {
                None => rx.recv().ok(),
                Some(d) => rx.recv_timeout(d.saturating_duration_since(Instant::now())).ok(),
            };
            match r {
                Some(o) => {
                    if o.1.failure.is_some() && deadline.is_none() {
                        STOP.store(true, Ordering::SeqCst);
                        deadline = Some(Instant::now() + Duration::from_secs(60));
                    }
                    outs.push(o)
                }
                None if deadline.is_some() => break,
                None => panic!("shard thread died"),
            }
        }
        outs.sort_by_key(|o| o.0);
        for (_, o) in outs {
            total.evals += o.evals;
            total.reject += o.reject;
            total.large += o.large;
            total.comparisons += o.comparisons;
            total.distinct.extend(o.distinct);
            total.nontrivial.extend(o.nontrivial);
            for (k, v) in o.labels {
                *total.labels.entry(k).or_insert(0) += v;
            }
            if total.samples.len() < 5 {
                total.samples.extend(o.samples.into_iter().take(1));
            }
            if failure.is_none() {
                failure = o.failure;
            }
        }
    }
    let replay = failure.as_ref().map(|(c, m)| (write_replay(&a.replays, P::ID, c, m), m.clone()));
    let mut ev = json!({
        "property": P::ID,
        "tier": if a.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct": total.distinct.len(),
            "distinct_nontrivial": total.nontrivial.len(),
            "oracle_comparisons": total.comparisons,
            "large_cases": total.large,
            "regression_replays": regress_n,
            "strategy_rejects": total.reject,
            "rule": P::RULE,
            "labels": total.labels,
            "samples": total.samples,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    if let Some((p, m)) = &replay {
        ev["coverage"]["violation"] = json!({"replay": p.display().to_string(), "message": m});
    }
    let _ = std::fs::create_dir_all(a.evidence.parent().unwrap());
    let tmp = a.evidence.with_extension("json.tmp");
    let mut f = std::fs::File::create(&tmp).expect("evidence file");
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    std::fs::rename(&tmp, &a.evidence).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} comparisons, {:.1}s",
        P::ID,
        total.evals,
        total.nontrivial.len(),
        total.comparisons,
        t0.elapsed().as_secs_f64()
    );
    if let Some((p, m)) = replay {
        println!("{}", m.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", P::ID, p.display());
        std::process::exit(1);
    }
    std::process::exit(0);
}
