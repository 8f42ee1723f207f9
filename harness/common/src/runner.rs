use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// What one evaluated case reports about itself.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<String>,
    evaluations: u64,
}
impl Obs {
    /// The case exercises the property (by the rule in the evidence file).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Classification, counted in the evidence.
    pub fn label(&mut self, l: impl Into<String>) {
        let l = l.into();
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    /// Single comparisons against the oracle made inside the case.
    pub fn evals(&mut self, n: usize) {
        self.evaluations += n as u64;
    }
}

#[derive(Default)]
pub struct Stats {
    cases: u64,
    oracle_evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    seen_labels: HashSet<String>,
    wall_s: f64,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.oracle_evaluations += o.oracle_evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Failure {
    pub part: String,
    pub message: String,
    pub case: Value,
}

type RunFn = Box<dyn Fn(&Part, u64, u32) -> (Stats, Option<Failure>)>;
type ReplayFn = Box<dyn Fn(&Value) -> Result<(), String>>;

/// One generator + oracle; a check consists of one or more parts.
pub struct Part {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    run: RunFn,
    replay: ReplayFn,
}

pub struct Check {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub parts: Vec<Part>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("crash: {msg} (at {loc})")));
    }));
}

/// Runs `f`, turning a crash of the code under test into an error message.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "crash".into())),
    }
}

/// A case that has not finished after this long counts as not terminating (cases normally take
/// milliseconds; the generators bound everything that is known to grow quickly).
const CASE_LIMIT: Duration = Duration::from_secs(60);

/// The case each shard is working on.
type Slot = Mutex<Option<(Instant, &'static str, Box<dyn Fn() -> Value + Send>)>>;
static SLOTS: OnceLock<Vec<Slot>> = OnceLock::new();
static PROPERTY: OnceLock<String> = OnceLock::new();

fn slots() -> &'static Vec<Slot> {
    SLOTS.get_or_init(|| (0..SHARDS).map(|_| Mutex::new(None)).collect())
}

/// Reports a case that does not come to an end, and ends the process.
fn watch() {
    loop {
        std::thread::sleep(Duration::from_secs(1));
        for s in slots() {
            let stuck = match &*s.lock().unwrap() {
                Some((since, part, case)) if since.elapsed() > CASE_LIMIT => Some((part.to_string(), case())),
                _ => None,
            };
            if let Some((part, case)) = stuck {
                let id = PROPERTY.get().cloned().unwrap_or_default();
                let message = format!("does not terminate (no result after {} s)", CASE_LIMIT.as_secs());
                let f = Failure { part, message, case };
                let path = violation(&id, &f);
                println!("[{}] {}", f.part, f.message);
                println!("case: {}", f.case);
                println!("VIOLATION property={id} replay={}", path.display());
                std::process::exit(1);
            }
        }
    }
}

const SHARDS: u64 = 8;
/// Each shard of a part remembers at most this many distinct non-trivial cases (long runs make
/// more than memory has room for); the count in the evidence is then a lower bound.
const DISTINCT_LIMIT: usize = 1_000_000;
const STACK: usize = 256 << 20;

/// FNV-1a, so that counts do not depend on the standard library's hasher.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    b.hash(&mut h);
    h.finish()
}

pub fn part<C, S>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strategy: fn() -> S,
    check: fn(&C, &mut Obs) -> Result<(), String>,
) -> Part
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
    S: Strategy<Value = C> + 'static,
{
    let run: RunFn = Box::new(move |p: &Part, seed: u64, cases: u32| {
        let started = Instant::now();
        let name = p.name;
        let mut handles = vec![];
        for shard in 0..SHARDS {
            let n = (cases as u64 / SHARDS + u64::from(shard < cases as u64 % SHARDS)) as u32;
            let shard_seed = hash_bytes(format!("{seed}/{name}/{shard}").as_bytes());
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || run_shard::<C, S>(name, shard, n, shard_seed, strategy, check))
                .expect("spawn");
            handles.push(h);
        }
        let mut stats = Stats::default();
        let mut failure = None;
        for h in handles {
            let (s, f) = h.join().unwrap_or_else(|_| {
                eprintln!("harness error: shard died");
                std::process::exit(2)
            });
            stats.merge(s);
            if failure.is_none() {
                failure = f;
            }
        }
        stats.wall_s = started.elapsed().as_secs_f64();
        (stats, failure)
    });
    let replay: ReplayFn = Box::new(move |v: &Value| {
        let case: C = match serde_json::from_value(v.clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("harness error: replay case does not decode: {e}");
                std::process::exit(2)
            }
        };
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || tx.send(guarded(|| check(&case, &mut Obs::default()))))
            .expect("spawn");
        match rx.recv_timeout(CASE_LIMIT) {
            Ok(r) => r,
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => Err("crash".into()),
            Err(_) => Err(format!("does not terminate (no result after {} s)", CASE_LIMIT.as_secs())),
        }
    });
    Part { name, quick, thorough, run, replay }
}

fn run_shard<C, S>(
    name: &'static str,
    shard: u64,
    cases: u32,
    seed: u64,
    strategy: fn() -> S,
    check: fn(&C, &mut Obs) -> Result<(), String>,
) -> (Stats, Option<Failure>)
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
    S: Strategy<Value = C>,
{
    let stats = RefCell::new(Stats::default());
    if cases == 0 {
        return (stats.into_inner(), None);
    }
    let mut config = Config::default();
    config.cases = cases;
    config.failure_persistence = None;
    config.rng_seed = RngSeed::Fixed(seed);
    config.max_shrink_iters = 20_000;
        config.max_shrink_time = 45_000;
    config.max_global_rejects = cases.saturating_mul(4).max(1000);
    config.verbose = 0;
    let mut runner = TestRunner::new(config);
    let failing = RefCell::new(false);
    let trace = std::env::var_os("VERIF_TRACE").map(|d| Path::new(&d).join(format!("{name}-{shard}")));
    let result = runner.run(&strategy(), |case| {
        let mut obs = Obs::default();
        if let Some(t) = &trace {
            let v = json!({"part": name, "case": serde_json::to_value(&case).unwrap_or(Value::Null)});
            std::fs::write(t, v.to_string()).expect("trace");
        }
        let case = Arc::new(case);
        let in_progress = case.clone();
        *slots()[shard as usize].lock().unwrap() = Some((
            Instant::now(),
            name,
            Box::new(move || serde_json::to_value(&*in_progress).unwrap_or(Value::Null)),
        ));
        let r = guarded(|| check(&case, &mut obs));
        *slots()[shard as usize].lock().unwrap() = None;
        if r.is_ok() && !*failing.borrow() {
            let mut st = stats.borrow_mut();
            st.cases += 1;
            st.oracle_evaluations += obs.evaluations.max(1);
            for l in &obs.labels {
                *st.labels.entry(l.clone()).or_default() += 1;
            }
            if obs.nontrivial {
                let text = serde_json::to_vec(&*case).unwrap_or_default();
                if st.nontrivial.len() < DISTINCT_LIMIT {
                    st.nontrivial.insert(hash_bytes(&text));
                }
                let fresh = obs.labels.iter().any(|l| !st.seen_labels.contains(l));
                if text.len() < 1500 && st.samples.len() < 3 && (fresh || st.samples.is_empty()) {
                    let v = serde_json::to_value(&*case).unwrap_or(Value::Null);
                    st.samples.push(json!({"part": name, "labels": obs.labels, "case": v}));
                    st.seen_labels.extend(obs.labels.iter().cloned());
                }
            }
        }
        r.map_err(|e| {
            *failing.borrow_mut() = true;
            TestCaseError::fail(e)
        })
    });
    let failure = match result {
        Ok(()) => None,
        Err(TestError::Fail(_, case)) => {
            // Re-evaluate the shrunk case for its message.
            let message = guarded(|| check(&case, &mut Obs::default()))
                .err()
                .unwrap_or_else(|| "(does not fail when evaluated again)".into());
            Some(Failure {
                part: name.to_string(),
                message,
                case: serde_json::to_value(&case).unwrap_or(Value::Null),
            })
        }
        Err(TestError::Abort(reason)) => {
            eprintln!("harness error: {name}: generation aborted: {reason}");
            std::process::exit(2)
        }
    };
    (stats.into_inner(), failure)
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

#[derive(serde::Deserialize)]
struct KnownFinding {
    property: String,
    part: String,
    case: Value,
    what: String,
}

fn known_findings(id: &str) -> Vec<KnownFinding> {
    let path = verif_dir().join("known_findings.json");
    let Ok(text) = std::fs::read_to_string(&path) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| {
        eprintln!("harness error: {}: {e}", path.display());
        std::process::exit(2)
    });
    v["known"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter(|v| v["engine"] != json!("ts"))
        .map(|v| serde_json::from_value::<KnownFinding>(v).expect("known finding entry"))
        .filter(|k| k.property == id)
        .collect()
}

fn violation(id: &str, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("replay-{id}-{}.json", f.part));
    let v = json!({"property": id, "part": f.part, "case": f.case, "message": f.message});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    path
}

fn run_check(c: &Check, tier: &str, seed: u64, scale: f64) -> i32 {
    let started = Instant::now();
    let mut total = Stats::default();
    let mut failures: Vec<Failure> = vec![];
    let mut part_info = serde_json::Map::new();

    // Saved regressions: minimised failures from earlier runs and from defects that were fixed.
    let mut regressions = 0u64;
    let dir = verif_dir().join("regress").join(c.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files.iter().filter(|f| f.extension().is_some_and(|e| e == "json")) {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).expect("regression file");
        let Some(p) = c.parts.iter().find(|p| v["part"] == p.name) else {
            eprintln!("harness error: unknown part in {}", f.display());
            return 2;
        };
        regressions += 1;
        if let Err(message) = (p.replay)(&v["case"]) {
            failures.push(Failure { part: p.name.into(), message, case: v["case"].clone() });
        }
    }

    let mut known_lines = vec![];
    for k in known_findings(c.id) {
        let Some(p) = c.parts.iter().find(|p| k.part == p.name) else { continue };
        if (p.replay)(&k.case).is_err() {
            known_lines.push(format!("KNOWN-FINDING: property={} {}", c.id, k.what));
        }
    }

    for p in &c.parts {
        let n = if tier == "thorough" { p.thorough } else { p.quick };
        let n = (n as f64 * scale).ceil() as u32;
        let (stats, failure) = (p.run)(p, seed, n);
        part_info.insert(
            p.name.into(),
            json!({"cases": stats.cases, "distinct_nontrivial": stats.nontrivial.len(),
                   "oracle_evaluations": stats.oracle_evaluations, "labels": stats.labels,
                   "wall_s": (stats.wall_s * 100.0).round() / 100.0}),
        );
        // Cases of different parts are different cases.
        let salt = hash_bytes(p.name.as_bytes());
        let mut stats = stats;
        stats.nontrivial = stats.nontrivial.into_iter().map(|h| h ^ salt).collect();
        total.samples.truncate(12);
        let mut s = std::mem::take(&mut stats.samples);
        s.truncate(3);
        total.merge(stats);
        total.samples.extend(s);
        if let Some(f) = failure {
            failures.push(f);
        }
    }

    let evidence = json!({
        "property": c.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.cases + regressions,
            "distinct_nontrivial": total.nontrivial.len(),
            "rule": c.rule,
            "samples": total.samples,
            "oracle_evaluations": total.oracle_evaluations,
            "distinct_counting_stops_at": DISTINCT_LIMIT * SHARDS as usize,
            "regressions_replayed": regressions,
            "parts": part_info,
        },
        "assumptions": c.assumptions,
        "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": failures.len(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", c.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("write evidence");

    for l in &known_lines {
        println!("{l}");
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} oracle evaluations, {:.1}s",
        c.id,
        total.cases + regressions,
        total.nontrivial.len(),
        total.oracle_evaluations,
        started.elapsed().as_secs_f64()
    );
    for f in &failures {
        let path = violation(c.id, f);
        println!("[{}] {}", f.part, f.message);
        println!("case: {}", f.case);
        println!("VIOLATION property={} replay={}", c.id, path.display());
    }
    i32::from(!failures.is_empty())
}

/// Runs the check in a child process, so that a crash that cannot be caught (stack overflow, abort)
/// still ends in a minimal report: the run is repeated with every case written down before it is
/// evaluated, and the cases in progress at the crash are replayed one by one.
fn supervise(id: &str, args: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let child = |a: &[&str], trace: Option<&Path>| {
        let mut c = std::process::Command::new(&exe);
        c.args(a).env("VERIF_CHILD", "1");
        if let Some(t) = trace {
            c.env("VERIF_TRACE", t).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status().expect("child").code()
    };
    let a: Vec<&str> = args[1..].iter().map(|s| s.as_str()).collect();
    if let Some(code) = child(&a, None) {
        return code;
    }
    let out = verif_dir().join("out");
    let dir = out.join(format!("trace-{id}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("trace dir");
    let again = child(&a, Some(&dir));
    if again.is_some() {
        eprintln!("harness error: {id} died of a signal, but not when repeated");
        return 2;
    }
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for f in files {
        let Ok(mut v) = serde_json::from_str::<Value>(&std::fs::read_to_string(&f).unwrap_or_default()) else {
            continue;
        };
        v["property"] = json!(id);
        v["message"] = json!("the process died (stack overflow or abort)");
        let path = out.join(format!("replay-{id}-{}.json", v["part"].as_str().unwrap_or("x")));
        std::fs::write(&path, v.to_string()).expect("write replay");
        let p = path.to_string_lossy().to_string();
        if child(&["replay", &p], Some(&dir)).is_none() {
            let _ = std::fs::remove_dir_all(&dir);
            println!("[{}] the process died (stack overflow or abort)", v["part"]);
            println!("case: {}", v["case"]);
            println!("VIOLATION property={id} replay={p}");
            return 1;
        }
    }
    eprintln!("harness error: {id} died of a signal; no single case reproduces it");
    2
}

pub fn main(checks: Vec<Check>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("VERIF_CHILD").is_none() && args.get(1).is_some_and(|a| a == "run") && args.len() > 2 {
        std::process::exit(supervise(&args[2], &args));
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = args.get(2).expect("check id");
            let tier = args
                .get(3)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse::<u64>().ok())
                .unwrap_or(1);
            let scale = std::env::var("VERIF_SCALE")
                .ok()
                .and_then(|s| s.parse::<f64>().ok())
                .unwrap_or(1.0);
            match checks.iter().find(|c| c.id == id) {
                Some(c) => {
                    let _ = PROPERTY.set(id.clone());
                    std::thread::spawn(watch);
                    run_check(c, &tier, seed, scale)
                }
                None => {
                    eprintln!("harness error: no check {id}");
                    2
                }
            }
        }
        Some("replay") => {
            let path = Path::new(args.get(2).expect("replay file"));
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
            let found = checks
                .iter()
                .find(|c| v["property"] == c.id)
                .and_then(|c| c.parts.iter().find(|p| v["part"] == p.name).map(|p| (c, p)));
            match found {
                Some((c, p)) => match (p.replay)(&v["case"]) {
                    Ok(()) => {
                        println!("{}: replay holds", c.id);
                        0
                    }
                    Err(m) => {
                        println!("[{}] {m}", p.name);
                        println!("VIOLATION property={} replay={}", c.id, path.display());
                        1
                    }
                },
                None => {
                    eprintln!("harness error: no such property/part");
                    2
                }
            }
        }
        Some("list") => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: run <id> [tier] | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}
