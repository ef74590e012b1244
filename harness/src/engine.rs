//! The engine: runs the parts of a property over generated cases (proptest
//! generators and shrinking), in fixed shards, and writes the evidence.

use {
    crate::supervise,
    proptest::{
        strategy::BoxedStrategy,
        test_runner::{
            Config,
            RngAlgorithm,
            TestCaseError,
            TestError,
            TestRng,
            TestRunner,
        },
    },
    serde::{
        de::DeserializeOwned,
        Serialize,
    },
    serde_json::{
        json,
        Value,
    },
    std::{
        sync::{
            atomic::{
                AtomicU64,
                Ordering,
            },
            OnceLock,
        },
        time::Duration,
        any::Any,
        cell::{
            Cell,
            RefCell,
        },
        collections::{
            hash_map::DefaultHasher,
            BTreeMap,
            HashSet,
        },
        fmt::Debug,
        hash::{
            Hash,
            Hasher,
        },
        panic::{
            catch_unwind,
            AssertUnwindSafe,
        },
        path::PathBuf,
        time::Instant,
    },
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// pick a size bound
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// what a passing case tells about itself
#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Info {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn class(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.classes.push(name);
        }
    }
    /// record a class which also makes the case non trivial
    pub fn hit(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.nontrivial = true;
            self.classes.push(name);
        }
    }
}

pub type CheckResult = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err(format!($($arg)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
        }
    }};
}

pub struct Failure {
    pub part: &'static str,
    pub case: Value,
    pub message: String,
    pub shard: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
}

/// A testable part of a property
pub trait DynPart: Sync {
    fn name(&self) -> &'static str;
    fn shards(&self) -> usize;
    fn run_shard(&self, prop: &str, seed: u64, tier: Tier, shard: usize)
        -> (Stats, Result<Option<Failure>, String>);
    fn replay(&self, case: &Value) -> Result<Result<(), String>, String>;
}

pub struct Part<C> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub shards: usize,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C) -> CheckResult,
}

pub fn part<C>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strategy: fn(Tier) -> BoxedStrategy<C>,
    check: fn(&C) -> CheckResult,
) -> Box<dyn DynPart>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    Box::new(Part { name, quick, thorough, shards: 16, strategy, check })
}

/// when the first failure was found (ms), or 0
static FIRST_FAILURE: AtomicU64 = AtomicU64::new(0);
/// how long other shards go on searching after a failure, and how long a
/// failure is shrunk
const SEARCH_AFTER_FAILURE: u64 = 4_000;
const MAX_SHRINK: u64 = 25_000;

fn now_ms() -> u64 {
    static EPOCH: OnceLock<Instant> = OnceLock::new();
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// how long an expected event can be waited for: far over what is needed, but
/// reduced when a failure is being shrunk
pub fn patience() -> Duration {
    match PATIENCE_MS.load(Ordering::SeqCst) {
        0 if SHRINKING.with(|s| s.get()) => Duration::from_secs(4),
        0 => Duration::from_secs(25),
        ms => Duration::from_millis(ms),
    }
}
/// set in the workers
pub static PATIENCE_MS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static SHRINKING: Cell<bool> = const { Cell::new(false) };
    static IN_CHECK: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CHECK.with(|c| c.get()) {
            let msg = payload_str(info.payload());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        } else {
            default(info);
        }
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// run a closure, turning a panic into an error
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let before = IN_CHECK.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CHECK.with(|c| c.set(before));
    match r {
        Ok(r) => r,
        Err(p) => Err(PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| format!("panic: {}", payload_str(&*p)))),
    }
}

fn seed_bytes(prop: &str, part: &str, seed: u64, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let mut h = DefaultHasher::new();
        (prop, part, seed, shard, i).hash(&mut h);
        out[i * 8..i * 8 + 8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

fn sample(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        let cut: String = s.chars().take(1200).collect();
        json!(format!("{cut}… ({} bytes)", s.len()))
    }
}

impl<C> DynPart for Part<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn shards(&self) -> usize {
        self.shards
    }
    fn run_shard(
        &self,
        prop: &str,
        seed: u64,
        tier: Tier,
        shard: usize,
    ) -> (Stats, Result<Option<Failure>, String>) {
        let total = tier.pick(self.quick, self.thorough) as usize;
        let cases = total / self.shards + usize::from(shard < total % self.shards);
        if cases == 0 {
            return (Stats::default(), Ok(None));
        }
        let config = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: 6000,
            max_shrink_time: 60_000,
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(
            RngAlgorithm::ChaCha,
            &seed_bytes(prop, self.name, seed, shard),
        );
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = (self.strategy)(tier);
        let stats = RefCell::new(Stats::default());
        let failed = Cell::new(0u64);
        let check = self.check;
        let result = runner.run(&strategy, |case| {
            let now = now_ms();
            if failed.get() > 0 {
                if now > failed.get() + MAX_SHRINK {
                    return Ok(()); // shrunk enough
                }
            } else {
                let first = FIRST_FAILURE.load(Ordering::SeqCst);
                if first > 0 && now > first + SEARCH_AFTER_FAILURE {
                    return Ok(()); // another shard has the answer
                }
            }
            let json = serde_json::to_string(&case).unwrap_or_default();
            supervise::enter(self.name, &json);
            let r = guarded(|| check(&case));
            supervise::leave();
            if failed.get() == 0 {
                let mut st = stats.borrow_mut();
                st.evaluations += 1;
                match &r {
                    Ok(info) => {
                        for c in &info.classes {
                            *st.classes.entry(format!("{}: {c}", self.name)).or_default() += 1;
                        }
                        if info.nontrivial {
                            let mut h = DefaultHasher::new();
                            (self.name, &json).hash(&mut h);
                            let inserted = st.nontrivial.insert(h.finish());
                            if inserted && shard == 0 && st.samples.len() < 3 {
                                let v = serde_json::from_str(&json).unwrap_or(Value::Null);
                                st.samples.push(json!({"part": self.name, "case": sample(&v)}));
                            }
                        }
                    }
                    Err(_) => {
                        failed.set(now_ms());
                        let _ = FIRST_FAILURE.compare_exchange(0, now_ms(), Ordering::SeqCst, Ordering::SeqCst);
                        SHRINKING.with(|s| s.set(true));
                    }
                }
            }
            r.map(|_| ()).map_err(TestCaseError::fail)
        });
        let outcome = match result {
            Ok(()) => Ok(None),
            Err(TestError::Fail(_, case)) => {
                let message = match guarded(|| check(&case)) {
                    Ok(_) => "the failure doesn't reproduce".to_string(),
                    Err(m) => m,
                };
                Ok(Some(Failure {
                    part: self.name,
                    case: serde_json::to_value(&case).unwrap_or(Value::Null),
                    message,
                    shard,
                }))
            }
            Err(TestError::Abort(why)) => Err(format!("part {}: generation aborted: {why}", self.name)),
        };
        SHRINKING.with(|s| s.set(false));
        (stats.into_inner(), outcome)
    }
    fn replay(&self, case: &Value) -> Result<Result<(), String>, String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(|| (self.check)(&case)).map(|_| ()))
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Box<dyn DynPart>>,
    /// at most this number of shards are run in parallel
    pub max_threads: usize,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VP_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

/// an entry of known_findings.jsonl: either a fixed one (which suppresses
/// nothing) or a known failing case
struct Known {
    part: String,
    case: Value,
    what: String,
}

fn known_findings(prop: &str) -> Result<Vec<Known>, String> {
    let path = verif_dir().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(&path) else {
        return Ok(Vec::new());
    };
    let mut known = Vec::new();
    for line in s.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') || line.starts_with("fixed:") {
            continue;
        }
        let v: Value = serde_json::from_str(line).map_err(|e| format!("{path:?}: {e}: {line}"))?;
        if v["property"] == prop {
            known.push(Known {
                part: v["part"].as_str().unwrap_or("").to_string(),
                case: v["case"].clone(),
                what: v["what"].as_str().unwrap_or("").to_string(),
            });
        }
    }
    Ok(known)
}

/// run a property. Return the exit code
pub fn run_property(p: &Property, seed: u64, tier: Tier) -> i32 {
    let start = Instant::now();
    let known = match known_findings(p.id) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("ERROR {e}");
            return 2;
        }
    };
    let mut violations: Vec<Failure> = Vec::new();
    let mut stats = Stats::default();
    let mut error: Option<String> = None;

    // known findings: replayed, reported, never alarming
    for k in &known {
        let Some(part) = p.parts.iter().find(|q| q.name() == k.part) else {
            eprintln!("ERROR known finding of {} for an unknown part {}", p.id, k.part);
            return 2;
        };
        match part.replay(&k.case) {
            Ok(Err(_)) => println!("KNOWN-FINDING: property={} {}", p.id, k.what),
            Ok(Ok(())) => println!("note: known finding not reproduced: property={} {}", p.id, k.what),
            Err(e) => {
                eprintln!("ERROR {e}");
                return 2;
            }
        }
    }

    // saved regression cases
    let dir = verif_dir().join("regressions").join(p.id);
    let mut saved: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|rd| rd.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    saved.sort();
    let mut nb_regressions = 0;
    for path in saved {
        let v: Value = match std::fs::read_to_string(&path)
            .map_err(|e| e.to_string())
            .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
        {
            Ok(v) => v,
            Err(e) => {
                eprintln!("ERROR {path:?}: {e}");
                return 2;
            }
        };
        let Some(part) = p.parts.iter().find(|q| Some(q.name()) == v["part"].as_str()) else {
            eprintln!("ERROR {path:?}: unknown part");
            return 2;
        };
        nb_regressions += 1;
        match part.replay(&v["case"]) {
            Ok(Ok(())) => {}
            Ok(Err(message)) => violations.push(Failure {
                part: part.name(),
                case: v["case"].clone(),
                message,
                shard: 0,
            }),
            Err(e) => {
                eprintln!("ERROR {path:?}: {e}");
                return 2;
            }
        }
    }

    // generated cases, in fixed shards
    let jobs: Vec<(usize, usize)> = p
        .parts
        .iter()
        .enumerate()
        .flat_map(|(ip, part)| (0..part.shards()).map(move |s| (ip, s)))
        .collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    type ShardResult = ((usize, usize), Stats, Result<Option<Failure>, String>);
    let results: std::sync::Mutex<Vec<ShardResult>> = Default::default();
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(p.max_threads);
    std::thread::scope(|scope| {
        for slot in 0..threads {
            let (next, jobs, results) = (&next, &jobs, &results);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || loop {
                    supervise::set_slot(slot);
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(&(ip, shard)) = jobs.get(i) else {
                        break;
                    };
                    let (st, r) = p.parts[ip].run_shard(p.id, seed, tier, shard);
                    results.lock().unwrap().push(((ip, shard), st, r));
                })
                .unwrap();
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);
    let mut by_part: BTreeMap<&'static str, u64> = BTreeMap::new();
    for ((ip, _), st, r) in results {
        *by_part.entry(p.parts[ip].name()).or_default() += st.evaluations;
        stats.evaluations += st.evaluations;
        for (k, v) in st.classes {
            *stats.classes.entry(k).or_default() += v;
        }
        stats.nontrivial.extend(st.nontrivial);
        stats.samples.extend(st.samples);
        match r {
            Ok(None) => {}
            Ok(Some(f)) => {
                if known.iter().any(|k| k.part == f.part && k.case == f.case) {
                    println!("KNOWN-FINDING: property={} found again", p.id);
                } else {
                    violations.push(f)
                }
            }
            Err(e) => error = Some(e),
        }
    }

    // a deterministic choice: the first failure of each part
    let mut reported: Vec<&'static str> = Vec::new();
    let out_dir = verif_dir().join("out").join("replay");
    for f in &violations {
        if reported.contains(&f.part) {
            continue;
        }
        reported.push(f.part);
        let _ = std::fs::create_dir_all(&out_dir);
        let path = out_dir.join(format!("{}-{}.json", p.id, f.part));
        let v = json!({
            "property": p.id,
            "part": f.part,
            "case": f.case,
            "message": f.message,
            "seed": seed,
            "tier": tier.name(),
            "shard": f.shard,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("--- {} / {}: {}", p.id, f.part, f.message);
        println!("    case: {}", f.case);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }

    let ev = json!({
        "property": p.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": stats.nontrivial.len(),
            "rule": p.rule,
            "samples": stats.samples,
            "evaluations_by_part": by_part,
            "classes": stats.classes,
            "regression_cases_replayed": nb_regressions,
            "known_findings_replayed": known.len(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": reported.len(),
    });
    let ev_dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ev_dir);
    let ev_path = ev_dir.join(format!("{}.json", p.id));
    if let Err(e) = std::fs::write(&ev_path, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("ERROR can't write {ev_path:?}: {e}");
        return 2;
    }
    println!(
        "{} {}: {} cases, {} distinct non trivial, {:.1}s, {} violation(s)",
        p.id,
        tier.name(),
        stats.evaluations,
        stats.nontrivial.len(),
        start.elapsed().as_secs_f64(),
        reported.len(),
    );
    if std::env::var("VP_CLASSES").is_ok() {
        for (k, v) in &stats.classes {
            println!("    {v:>8} {k}");
        }
    }
    if !reported.is_empty() {
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR {e}");
        return 2;
    }
    0
}

pub fn replay(props: &[Property], path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path)
        .map_err(|e| e.to_string())
        .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
    {
        Ok(v) => v,
        Err(e) => {
            eprintln!("ERROR {e}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let part = v["part"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("ERROR unknown property {id}");
        return 2;
    };
    let Some(q) = p.parts.iter().find(|q| q.name() == part) else {
        eprintln!("ERROR unknown part {part}");
        return 2;
    };
    match q.replay(&v["case"]) {
        Ok(Ok(())) => {
            println!("{id} / {part}: holds on this case");
            0
        }
        Ok(Err(m)) => {
            println!("{id} / {part}: {m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Err(e) => {
            eprintln!("ERROR {e}");
            2
        }
    }
}
