//! Small framework shared by the check binaries: seeded proptest runs sharded over threads,
//! shrunk failures written as replay files, evidence files, and known findings.

pub use proptest;
pub use serde;
pub use serde_json;

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use std::time::Instant;

mod supervise;

// ------------------------------------------------------------------------------------------------
// Outcomes of one case
// ------------------------------------------------------------------------------------------------

/// A failed case. `sig` identifies the exact failure for the known-findings file.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Self { sig: None, msg: msg.into() }
    }
    pub fn sig(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Self { sig: Some(sig.into()), msg: msg.into() }
    }
}

/// `Ok(true)`: held on a non-trivial case; `Ok(false)`: held on a trivial one.
pub type R = Result<bool, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) { return Err($crate::Fail::new(format!($($t)*)).into()); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => if !(a == b) {
                return Err($crate::Fail::new(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)).into());
            }
        }
    }};
}

thread_local! {
    static LABELS: RefCell<BTreeMap<String, u64>> = const { RefCell::new(BTreeMap::new()) };
    static COUNTING: Cell<bool> = const { Cell::new(true) };
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
    static CATCHING: Cell<bool> = const { Cell::new(false) };
}

/// Count a case as belonging to a class; the distribution ends up in the evidence file.
pub fn label(l: &str) {
    if COUNTING.with(|c| c.get()) {
        LABELS.with(|m| {
            let mut m = m.borrow_mut();
            if let Some(n) = m.get_mut(l) {
                *n += 1;
            } else {
                m.insert(l.to_string(), 1);
            }
        });
    }
}

thread_local! {
    static SLOT: RefCell<Option<supervise::Slot>> = const { RefCell::new(None) };
}

/// Run `f`, turning a panic into `Err(description)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = CATCHING.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(was));
    r.map_err(|_| PANIC_AT.with(|p| p.borrow().clone()))
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CATCHING.with(|c| c.get()) {
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let l = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC_AT.with(|p| *p.borrow_mut() = format!("panic at {l}: {m}"));
        } else {
            default(info)
        }
    }));
}

fn guarded<T: Serialize>(test: &(dyn Fn(&T) -> R + Sync), v: &T) -> R {
    SLOT.with(|s| {
        if let Some(s) = &mut *s.borrow_mut() {
            s.begin(v)
        }
    });
    let r = match no_panic(|| test(v)) {
        Ok(r) => r,
        Err(p) => Err(Fail::new(format!("unexpected {p}"))),
    };
    SLOT.with(|s| {
        if let Some(s) = &mut *s.borrow_mut() {
            s.end()
        }
    });
    r
}

/// Runs `f` in a thread whose cases can be told should they end the process, or not end.
fn in_slot<T>(n: usize, facet: &str, f: impl FnOnce() -> T) -> T {
    SLOT.with(|s| *s.borrow_mut() = supervise::Slot::open(n, facet));
    let r = f();
    SLOT.with(|s| *s.borrow_mut() = None);
    r
}

// ------------------------------------------------------------------------------------------------
// Facets
// ------------------------------------------------------------------------------------------------

pub struct Cx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub known: Arc<HashSet<String>>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub labels: BTreeMap<String, u64>,
    pub known_hits: BTreeMap<String, u64>,
    pub failure: Option<(Value, Fail)>,
}

impl Report {
    fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known_hits {
            *self.known_hits.entry(k).or_default() += v;
        }
        if self.samples.len() < 4 {
            self.samples.extend(o.samples);
            self.samples.truncate(4);
        }
        if self.failure.is_none() {
            self.failure = o.failure;
        }
    }
}

pub trait Facet: Sync {
    fn name(&self) -> &str;
    fn run(&self, cx: &Cx) -> Result<Report, String>;
    /// Re-run one saved input; `Err` if it still fails.
    fn replay(&self, input: &Value) -> Result<Result<(), Fail>, String>;
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

struct Rec<'a> {
    rep: RefCell<Report>,
    cx: &'a Cx,
    failed: Cell<bool>,
}

impl Rec<'_> {
    /// Record one result; returns the failure unless it is a listed known finding.
    fn record<T: Serialize>(&self, v: &T, r: R) -> Result<(), Fail> {
        let mut rep = self.rep.borrow_mut();
        let counting = !self.failed.get();
        if counting {
            rep.evaluations += 1;
        }
        match r {
            Ok(nontrivial) => {
                if nontrivial && counting {
                    let text = serde_json::to_string(v).unwrap_or_default();
                    if rep.distinct.insert(hash_of(&text)) {
                        let n = rep.distinct.len();
                        if (n == 3 || n == 40 || n == 400 || n == 2000) && text.len() < 3000 {
                            let val = serde_json::from_str(&text).unwrap_or(Value::Null);
                            rep.samples.push(val);
                        }
                    }
                }
                Ok(())
            }
            Err(f) => {
                if let Some(s) = &f.sig
                    && self.cx.known.contains(s)
                {
                    if counting {
                        *rep.known_hits.entry(s.clone()).or_default() += 1;
                    }
                    return Ok(());
                }
                self.failed.set(true);
                COUNTING.with(|c| c.set(false));
                Err(f)
            }
        }
    }
    fn finish(self) -> Report {
        let mut rep = self.rep.into_inner();
        rep.labels = LABELS.with(|m| std::mem::take(&mut *m.borrow_mut()));
        COUNTING.with(|c| c.set(true));
        rep
    }
}

/// What a quick run can afford, as a multiple of the counts that the facets give.
pub static QUICK_SCALE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

/// A facet driven by a proptest strategy.
pub struct Gen<T: 'static> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn() -> BoxedStrategy<T>,
    pub test: fn(&T) -> R,
}

impl<T> Facet for Gen<T>
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &str {
        self.name
    }

    fn run(&self, cx: &Cx) -> Result<Report, String> {
        let quick = QUICK_SCALE.load(std::sync::atomic::Ordering::Relaxed) * self.quick;
        let cases = if cx.thorough { self.thorough.max(quick) } else { quick };
        let n = cx.threads as u32;
        let per = cases.div_ceil(n).max(1);
        let mut total = Report::default();
        let reports: Vec<Result<Report, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|shard| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || in_slot(shard as usize, self.name, || self.shard(cx, shard, per)))
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err("harness thread panicked".into())))
                .collect()
        });
        for r in reports {
            total.merge(r?);
        }
        Ok(total)
    }

    fn replay(&self, input: &Value) -> Result<Result<(), Fail>, String> {
        let v: T = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(&self.test, &v).map(|_| ()))
    }
}

impl<T> Gen<T>
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn shard(&self, cx: &Cx, shard: u32, per: u32) -> Result<Report, String> {
        let mut seed = [0u8; 32];
        seed[..8].copy_from_slice(&cx.seed.to_le_bytes());
        let h = hash_fnv(&format!("{}/{}", cx.property, self.name));
        seed[8..16].copy_from_slice(&h.to_le_bytes());
        seed[16..20].copy_from_slice(&shard.to_le_bytes());
        let config = Config {
            cases: per,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 60_000,
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(
            config,
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
        );
        let rec = Rec { rep: RefCell::new(Report::default()), cx, failed: Cell::new(false) };
        let strategy = (self.strategy)();
        let res = runner.run(&strategy, |v| {
            let r = guarded(&self.test, &v);
            rec.record(&v, r).map_err(|f| TestCaseError::fail(f.msg))
        });
        let mut rep = rec.finish();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, v)) => {
                let f = match guarded(&self.test, &v) {
                    Err(f) => f,
                    Ok(_) => Fail::new(format!("(not reproduced on re-run) {reason}")),
                };
                let val = serde_json::to_value(&v).map_err(|e| e.to_string())?;
                rep.failure = Some((val, f));
            }
            Err(TestError::Abort(r)) => return Err(format!("{}: aborted: {r}", self.name)),
        }
        Ok(rep)
    }
}

fn hash_fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// A facet that enumerates a finite input space completely (or a fixed regression list).
pub struct Enumerate<T: 'static> {
    pub name: &'static str,
    pub items: fn(thorough: bool) -> Box<dyn Iterator<Item = T>>,
    pub test: fn(&T) -> R,
}

impl<T> Facet for Enumerate<T>
where
    T: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &str {
        self.name
    }
    fn run(&self, cx: &Cx) -> Result<Report, String> {
        let n = cx.threads;
        let mut total = Report::default();
        let reports: Vec<Report> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|shard| {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || in_slot(shard, self.name, || {
                        let rec = Rec {
                            rep: RefCell::new(Report::default()),
                            cx,
                            failed: Cell::new(false),
                        };
                        let mut failure = None;
                        for (_, v) in (self.items)(cx.thorough)
                            .enumerate()
                            .filter(|(i, _)| i % n == shard)
                        {
                            let r = guarded(&self.test, &v);
                            if let Err(f) = rec.record(&v, r) {
                                failure =
                                    Some((serde_json::to_value(&v).unwrap_or(Value::Null), f));
                                break;
                            }
                        }
                        let mut rep = rec.finish();
                        rep.failure = failure;
                        rep
                    })).unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness thread")).collect()
        });
        for r in reports {
            total.merge(r);
        }
        Ok(total)
    }
    fn replay(&self, input: &Value) -> Result<Result<(), Fail>, String> {
        let v: T = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(&self.test, &v).map(|_| ()))
    }
}

// ------------------------------------------------------------------------------------------------
// Properties and the command line
// ------------------------------------------------------------------------------------------------

pub struct Property {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: Vec<Box<dyn Facet>>,
}

struct Finding {
    property: String,
    sig: String,
    what: String,
}

fn findings(path: &str) -> Result<Vec<Finding>, String> {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(vec![]),
        Err(e) => return Err(e.to_string()),
    };
    let mut out = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().and_then(|s| s.strip_prefix("property=")).ok_or("bad finding line")?;
            let s =
                it.next().and_then(|s| s.strip_prefix("signature=")).ok_or("bad finding line")?;
            out.push(Finding {
                property: p.into(),
                sig: s.into(),
                what: it.next().unwrap_or("").into(),
            });
        }
    }
    Ok(out)
}

/// What further processes of this program write, a line each, when run with `produce` and `input`.
pub fn produced(processes: usize, input: &str) -> Result<Vec<String>, Fail> {
    let no = |e: std::io::Error| Fail::new(format!("harness: cannot run another process: {e}"));
    let exe = std::env::current_exe().map_err(no)?;
    let children = (0..processes)
        .map(|_| {
            std::process::Command::new(&exe)
                .args(["produce", input])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn()
        })
        .collect::<Result<Vec<_>, _>>()
        .map_err(no)?;
    let mut lines = Vec::new();
    for c in children {
        let out = c.wait_with_output().map_err(no)?;
        ensure!(out.status.success(), "another process ended with {}", out.status);
        lines.extend(String::from_utf8_lossy(&out.stdout).lines().map(str::to_string));
    }
    Ok(lines)
}

/// `Some(input)` in a process started by [`produced`].
pub fn to_produce() -> Option<String> {
    let mut args = std::env::args().skip(1);
    (args.next()? == "produce").then(|| args.next()).flatten()
}

/// `<bin> check <ID>` | `<bin> replay <file>` | `<bin> list`
pub fn main_with(properties: Vec<Property>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &properties {
                println!("{} ({} facets)", p.id, p.facets.len());
            }
            0
        }
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            match properties.iter().find(|p| p.id == id) {
                Some(p) if supervise::is_child() => {
                    supervise::watch();
                    check(p, &root)
                }
                Some(p) => supervise::check(p, &root),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => supervise::replay(args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("replay-here") => replay(&properties, args.get(2).map(|s| s.as_str()).unwrap_or("")),
        _ => {
            eprintln!("usage: check <ID> | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}

fn check(p: &Property, root: &str) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let all = match findings(&format!("{root}/KNOWN_FINDINGS.txt")) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("known findings: {e}");
            return 2;
        }
    };
    let mine: Vec<&Finding> = all.iter().filter(|f| f.property == p.id).collect();
    let cx = Cx {
        property: p.id.into(),
        seed,
        thorough: tier == "thorough",
        threads: 8,
        known: Arc::new(mine.iter().map(|f| f.sig.clone()).collect()),
    };
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut facets = serde_json::Map::new();
    let mut violations = 0;
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    for f in &p.facets {
        let t = Instant::now();
        let rep = match f.run(&cx) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("ERROR property={} {e}", p.id);
                return 3;
            }
        };
        evaluations += rep.evaluations;
        distinct += rep.distinct.len() as u64;
        for s in rep.samples.iter().take(2) {
            samples.push(json!({"facet": f.name(), "input": s}));
        }
        for (k, v) in &rep.known_hits {
            *hits.entry(k.clone()).or_default() += v;
        }
        facets.insert(
            f.name().into(),
            json!({
                "evaluations": rep.evaluations,
                "distinct_nontrivial": rep.distinct.len(),
                "labels": rep.labels,
                "wall_s": t.elapsed().as_secs_f64(),
            }),
        );
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
            p.id,
            f.name(),
            rep.evaluations,
            rep.distinct.len(),
            t.elapsed().as_secs_f64()
        );
        if let Some((input, fail)) = rep.failure {
            violations += 1;
            let dir = format!("{root}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}-{}.json", p.id, f.name());
            let body = json!({
                "property": p.id,
                "facet": f.name(),
                "seed": seed,
                "message": fail.msg,
                "signature": fail.sig,
                "input": input,
            });
            if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
                eprintln!("cannot write {path}: {e}");
            }
            println!("  {}", fail.msg);
            if let Some(s) = &fail.sig {
                println!("  signature: {s}");
            }
            println!("  input: {}", body["input"]);
            println!("VIOLATION property={} replay={}", p.id, path);
        }
    }
    for f in &mine {
        println!("KNOWN-FINDING: property={} {} [{}]", f.property, f.what, f.sig);
    }
    let ev = json!({
        "property": p.id,
        "tier": if cx.thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "facets": facets,
            "known_finding_hits": hits,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        format!("{dir}/{}.json", p.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    if violations > 0 { 1 } else { 0 }
}

fn replay(ps: &[Property], path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path)
        .map_err(|e| e.to_string())
        .and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string()))
    {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let Some(p) = ps.iter().find(|p| Some(p.id) == v["property"].as_str()) else {
        eprintln!("unknown property in {path}");
        return 2;
    };
    let Some(f) = p.facets.iter().find(|f| Some(f.name()) == v["facet"].as_str()) else {
        eprintln!("unknown facet in {path}");
        return 2;
    };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || f.replay(&v["input"])).unwrap().join()
    });
    match r.unwrap_or_else(|_| Err("the thread panicked".into())) {
        Ok(Ok(())) => {
            println!("replay: holds");
            0
        }
        Ok(Err(fail)) => {
            println!("replay: {}", fail.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}
