//! A check runs in a process of its own, as a case may end the process (overflow the stack, abort,
//! use all memory) or never end. The case is then found, made smaller, and reported like others.

use crate::Property;
use serde::Serialize;
use serde_json::{Value, json};
use std::fs::{self, File};
use std::os::unix::fs::FileExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

const CHILD: &str = "PBT_SLOTS";
const SLOTS: usize = 8;
/// Far above what any case takes.
const CASE_SECONDS: u64 = 60;
const MEMORY: u64 = 8 << 30;
/// Exit codes of a child that gave up.
const SLOW: i32 = 90;
const BIG: i32 = 91;

/// When the case in each slot began, in milliseconds since the start, or 0.
static BEGAN: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub struct Slot {
    n: usize,
    facet: String,
    file: File,
}

impl Slot {
    pub fn open(n: usize, facet: &str) -> Option<Self> {
        let dir = std::env::var(CHILD).ok()?;
        let file = File::create(format!("{dir}/{n}")).ok()?;
        Some(Self { n, facet: facet.into(), file })
    }
    pub fn begin<T: Serialize>(&mut self, v: &T) {
        if let Ok(body) = serde_json::to_vec(&(&self.facet, v)) {
            let mut all = (body.len() as u64).to_le_bytes().to_vec();
            all.extend(body);
            let _ = self.file.write_all_at(&all, 0);
        }
        BEGAN[self.n % SLOTS].store(now(), Relaxed);
    }
    pub fn end(&mut self) {
        BEGAN[self.n % SLOTS].store(0, Relaxed);
    }
}

impl Drop for Slot {
    fn drop(&mut self) {
        let _ = self.file.write_all_at(&0u64.to_le_bytes(), 0);
    }
}

pub fn is_child() -> bool {
    std::env::var_os(CHILD).is_some()
}

/// Ends the process should a case take too long, or all memory.
pub fn watch() {
    now();
    std::thread::spawn(|| {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = now();
            for b in &BEGAN {
                let b = b.load(Relaxed);
                if b != 0 && now.saturating_sub(b) > CASE_SECONDS * 1000 {
                    std::process::exit(SLOW);
                }
            }
            let pages = fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok());
            if pages.unwrap_or(0) * 4096 > MEMORY {
                std::process::exit(BIG);
            }
        }
    });
}

fn own(arg: &[&str]) -> Command {
    // Less memory than the machine has, so that a case that uses it all is told from one that is ended.
    let mut c = Command::new("sh");
    c.arg("-c").arg("ulimit -c 0; ulimit -v 16000000; exec \"$0\" \"$@\"").arg(std::env::current_exe().unwrap()).args(arg);
    c
}

fn told(s: ExitStatus) -> Option<i32> {
    s.code().filter(|c| (0..=3).contains(c))
}

fn dir() -> String {
    let d = format!("{}/pbt-{}", std::env::temp_dir().display(), std::process::id());
    let _ = fs::create_dir_all(&d);
    d
}

/// The case in progress in each slot, as facet and input.
fn in_progress(dir: &str) -> Vec<(String, Value)> {
    (0..SLOTS)
        .filter_map(|n| {
            let all = fs::read(format!("{dir}/{n}")).ok()?;
            let len = u64::from_le_bytes(all.get(..8)?.try_into().ok()?) as usize;
            serde_json::from_slice(all.get(8..8 + len)?).ok()
        })
        .collect()
}

/// How a single case ends its process, if it does (or fails; which is no better).
fn end_of(p: &str, facet: &str, input: &Value, dir: &str, most: Duration) -> Option<String> {
    let path = format!("{dir}/case.json");
    fs::write(&path, json!({"property": p, "facet": facet, "input": input}).to_string()).ok()?;
    let mut child = own(&["replay-here", &path]).stdout(Stdio::null()).stderr(Stdio::null()).process_group(0).spawn().ok()?;
    let start = Instant::now();
    loop {
        match child.try_wait().ok()? {
            Some(s) if s.code() == Some(0) || s.code() == Some(2) => return None,
            Some(s) if s.code() == Some(1) => return Some("fails".into()),
            Some(s) => return Some(format!("ends the process ({s})")),
            None if start.elapsed() > most => {
                let _ = child.kill();
                let _ = child.wait();
                return Some(format!("does not end within {} s", most.as_secs()));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

/// Smaller inputs, with elements of lists left out.
fn smaller(v: &Value, at: &mut Vec<Value>, make: &dyn Fn(Value) -> Value) {
    match v {
        Value::Array(a) => {
            for n in 0..a.len() {
                let mut b = a.clone();
                b.remove(n);
                at.push(make(Value::Array(b)));
            }
            for n in 0..a.len() {
                smaller(&a[n], at, &|x| {
                    let mut b = a.clone();
                    b[n] = x;
                    make(Value::Array(b))
                });
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                smaller(x, at, &|x| {
                    let mut b = o.clone();
                    b.insert(k.clone(), x);
                    make(Value::Object(b))
                });
            }
        }
        _ => {}
    }
}

pub fn check(p: &Property, root: &str) -> i32 {
    let start = Instant::now();
    let dir = dir();
    let status = own(&["check", p.id]).env(CHILD, &dir).status();
    let code = match status {
        Ok(s) => told(s).unwrap_or_else(|| {
            let how = match s.code() {
                Some(SLOW) => format!("a case takes more than {CASE_SECONDS} s"),
                Some(BIG) => "a case takes all memory".into(),
                _ => format!("a case ends the process ({s})"),
            };
            blame(p, root, &dir, &how, start)
        }),
        Err(e) => {
            eprintln!("ERROR property={} {e}", p.id);
            3
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}

fn blame(p: &Property, root: &str, dir: &str, how: &str, start: Instant) -> i32 {
    let cases = in_progress(dir);
    let most = Duration::from_secs(20);
    // What is random by itself may need more than one try.
    let found = (0..3).flat_map(|_| &cases).find_map(|(f, v)| Some((f, v, end_of(p.id, f, v, dir, most)?)));
    let Some((facet, input, end)) = found else {
        eprintln!("ERROR property={} {how}, but no case does by itself: {}", p.id, json!(cases));
        return 3;
    };
    let mut input = input.clone();
    let until = Instant::now() + Duration::from_secs(90);
    'again: loop {
        let mut less = vec![];
        smaller(&input, &mut less, &|x| x);
        for l in less {
            if Instant::now() > until {
                break 'again;
            }
            if end_of(p.id, facet, &l, dir, Duration::from_secs(5)).is_some() {
                input = l;
                continue 'again;
            }
        }
        break;
    }
    let path = format!("{root}/replays/{}-{facet}.json", p.id);
    let _ = fs::create_dir_all(format!("{root}/replays"));
    let _ = fs::create_dir_all(format!("{root}/evidence"));
    let body = json!({"property": p.id, "facet": facet, "message": format!("{how}: {end}"), "input": input});
    let ev = json!({
        "property": p.id,
        "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [{"facet": facet, "input": input}]},
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": 1,
    });
    for (path, v) in [(&path, &body), (&format!("{root}/evidence/{}.json", p.id), &ev)] {
        if let Err(e) = fs::write(path, serde_json::to_string_pretty(v).unwrap()) {
            eprintln!("cannot write {path}: {e}");
        }
    }
    println!("  {}", body["message"].as_str().unwrap());
    println!("  input: {input}");
    println!("VIOLATION property={} replay={path}", p.id);
    1
}

pub fn replay(path: &str) -> i32 {
    let v: Option<Value> = fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok());
    let p = v.as_ref().and_then(|v| v["property"].as_str()).unwrap_or("?");
    match own(&["replay-here", path]).status() {
        Ok(s) => told(s).unwrap_or_else(|| {
            println!("replay: the case ends the process ({s})");
            println!("VIOLATION property={p} replay={path}");
            1
        }),
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}
