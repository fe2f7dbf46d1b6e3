//! Running the checks: cases on all cores, what was observed, verdicts, evidence, replay files.

use crate::util::{hash, mix};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What the monitors saw.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub n: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

impl Obs {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.n.get_mut(k) {
            *x += n;
        } else {
            self.n.insert(k.into(), n);
        }
    }
    pub fn one(&mut self, k: &str) {
        self.add(k, 1);
    }
    /// Keys starting with `max ` hold maxima.
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max {k}");
        let e = self.n.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn hit(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.n {
            if k.starts_with("max ") {
                let e = self.n.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.n.entry(k).or_insert(0) += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Ctx {
    pub obs: Obs,
    pub thorough: bool,
    /// where files may be put; removed afterwards
    pub scratch: std::path::PathBuf,
}

/// `Err` says what broke the property.
pub type Out = Result<(), String>;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    /// cases in the quick tier; the thorough tier makes `deep` times as many
    pub cases: u64,
    pub deep: u64,
    pub threads: usize,
    /// the least number of distinct non-trivial cases that counts as having looked (quick tier)
    pub floor: u64,
    pub case: fn(u64, &mut Ctx) -> Out,
    /// fixed cases, known findings among them
    pub probes: &'static [(&'static str, fn(&mut Ctx) -> Out)],
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn hook_panics() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        PANIC.with(|p| *p.borrow_mut() = Some((at, msg)));
    }));
}

/// A panic of the harness itself is trouble, one of the library a result.
pub enum Caught {
    Library(String),
    Harness(String),
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (at, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let text = format!("panic at {at}: {msg}");
            // files of the harness are named relative to its own crate
            if at.starts_with("src/") {
                Err(Caught::Harness(text))
            } else {
                Err(Caught::Library(text))
            }
        }
    }
}

pub fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    mix(hash(id.as_bytes()) ^ mix(seed.wrapping_mul(0x9E37).wrapping_add(i)))
}

enum Verdict {
    Held,
    Broken(String),
    Trouble(String),
}

fn judge(f: impl FnOnce() -> Out) -> Verdict {
    match guard(f) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(e)) => Verdict::Broken(e),
        Err(Caught::Library(e)) => Verdict::Broken(e),
        Err(Caught::Harness(e)) => Verdict::Trouble(e),
    }
}

fn now_file(scratch: &std::path::Path, t: usize) -> std::path::PathBuf {
    scratch.join(format!("now-{t}"))
}

/// The process that does the work. Prints one line `RESULT {...}`.
pub fn work(c: &Check, thorough: bool, seed: u64, scratch: &std::path::Path, budget: f64) {
    hook_panics();
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Obs::default());
    let bad: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let trouble: Mutex<Vec<String>> = Mutex::new(vec![]);
    let n = if thorough { c.cases * c.deep } else { c.cases };
    let ctx = |obs| Ctx { obs, thorough, scratch: scratch.to_path_buf() };
    // fixed cases
    let probe = AtomicU64::new(0);
    std::thread::scope(|s| {
        let next = &probe;
        for t in 0..c.threads.min(c.probes.len()) {
            let (total, bad, trouble) = (&total, &bad, &trouble);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut cx = ctx(Obs::default());
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                        let Some((name, f)) = c.probes.get(i) else { break };
                        let _ = std::fs::write(now_file(scratch, t), format!("probe {name}"));
                        cx.obs.evals += 1;
                        match judge(|| f(&mut cx)) {
                            Verdict::Held => cx.obs.one("fixed cases that held"),
                            Verdict::Broken(e) => {
                                bad.lock().unwrap().push(json!({"probe": name, "detail": e}));
                            }
                            Verdict::Trouble(e) => trouble.lock().unwrap().push(format!("probe {name}: {e}")),
                        }
                        let _ = std::fs::write(now_file(scratch, t), "");
                    }
                    total.lock().unwrap().merge(cx.obs);
                })
                .unwrap();
        }
    });
    std::thread::scope(|s| {
        for t in 0..c.threads {
            let (next, stop, total, bad, trouble) = (&next, &stop, &total, &bad, &trouble);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut cx = ctx(Obs::default());
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || stop.load(Ordering::SeqCst) || start.elapsed().as_secs_f64() > budget {
                            break;
                        }
                        let cs = case_seed(c.id, seed, i);
                        let _ = std::fs::write(now_file(scratch, t), format!("seed {cs}"));
                        cx.obs.evals += 1;
                        match judge(|| (c.case)(cs, &mut cx)) {
                            Verdict::Held => {}
                            Verdict::Broken(e) => {
                                bad.lock().unwrap().push(json!({"seed": cs, "detail": e}));
                                stop.store(true, Ordering::SeqCst);
                            }
                            Verdict::Trouble(e) => {
                                trouble.lock().unwrap().push(format!("seed {cs}: {e}"));
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    let _ = std::fs::write(now_file(scratch, t), "");
                    total.lock().unwrap().merge(cx.obs);
                })
                .unwrap();
        }
    });
    let o = total.into_inner().unwrap();
    let r = json!({
        "evals": o.evals, "distinct": o.distinct.len(), "n": o.n, "samples": o.samples,
        "bad": bad.into_inner().unwrap(), "trouble": trouble.into_inner().unwrap(),
        "asked": n,
    });
    println!("RESULT {r}");
}

/// One case again, alone. True if the property held.
pub fn replay(c: &Check, v: &Value, thorough: bool, scratch: &std::path::Path) -> bool {
    hook_panics();
    let mut cx = Ctx { obs: Obs::default(), thorough, scratch: scratch.to_path_buf() };
    let verdict = if let Some(s) = v["seed"].as_u64() {
        judge(|| (c.case)(s, &mut cx))
    } else {
        let name = v["probe"].as_str().unwrap_or("");
        match c.probes.iter().find(|p| p.0 == name) {
            Some(p) => judge(|| (p.1)(&mut cx)),
            None => Verdict::Trouble(format!("no fixed case {name}")),
        }
    };
    match verdict {
        Verdict::Held => {
            println!("held");
            true
        }
        Verdict::Broken(e) => {
            println!("broken: {e}");
            false
        }
        Verdict::Trouble(e) => {
            println!("trouble: {e}");
            std::process::exit(2);
        }
    }
}

/// `known: property=<id> case=<probe> detail=<text>` lines of the known-findings file.
fn known(root: &std::path::Path, id: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let t = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    for l in t.lines() {
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let Some(l) = l.strip_prefix(&format!("property={id} ")) else { continue };
        let Some(l) = l.strip_prefix("case=") else { continue };
        let Some((case, rest)) = l.split_once(' ') else { continue };
        let Some((what, detail)) = rest.split_once(" signature=") else { continue };
        out.push((case.to_string(), detail.trim().to_string(), what.to_string()));
    }
    out
}

/// The parent: runs the work in a child process, turns what comes back into a verdict and evidence.
pub fn check(c: &Check, thorough: bool, seed: u64, root: &std::path::Path) -> i32 {
    let start = Instant::now();
    let scratch = root.join("scratch").join(format!("{}-{}", c.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let code = check_in(c, thorough, seed, root, &scratch, start);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn check_in(
    c: &Check,
    thorough: bool,
    seed: u64,
    root: &std::path::Path,
    scratch: &std::path::Path,
    start: Instant,
) -> i32 {
    let tier = if thorough { "thorough" } else { "quick" };
    let budget: f64 = if thorough { 1500.0 } else { 120.0 };
    let outf = scratch.join("out");
    let errf = scratch.join("err");
    let mut child = match std::process::Command::new(std::env::current_exe().unwrap())
        .args(["work", c.id, tier, &seed.to_string(), scratch.to_str().unwrap(), &budget.to_string()])
        .stdout(std::fs::File::create(&outf).unwrap())
        .stderr(std::fs::File::create(&errf).unwrap())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the worker: {e}");
            return 2;
        }
    };
    let limit = Duration::from_secs_f64(budget * 2.0 + 240.0);
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let running = || -> Vec<Value> {
        let mut v = vec![];
        for t in 0..64 {
            if let Ok(s) = std::fs::read_to_string(now_file(scratch, t)) {
                if let Some(s) = s.strip_prefix("seed ") {
                    v.push(json!({"seed": s.parse::<u64>().unwrap_or(0)}));
                } else if let Some(s) = s.strip_prefix("probe ") {
                    v.push(json!({"probe": s}));
                }
            }
        }
        v
    };
    let Some(status) = status else {
        eprintln!("the worker did not finish; running then: {}", Value::Array(running()));
        return 2;
    };
    let out = std::fs::read_to_string(&outf).unwrap_or_default();
    let res = out.lines().filter_map(|l| l.strip_prefix("RESULT ")).last().and_then(|l| serde_json::from_str(l).ok());
    let res: Value = match res {
        Some(v) => v,
        None => {
            use std::os::unix::process::ExitStatusExt;
            let err = std::fs::read_to_string(&errf).unwrap_or_default();
            let tail: String = err.lines().rev().take(5).collect::<Vec<_>>().join(" | ");
            match status.signal() {
                // the process was brought down from inside (abort, stack overflow): find out by which case
                Some(6) | Some(11) | Some(7) | Some(4) => {
                    let mut found = vec![];
                    for v in running() {
                        let f = scratch.join("again.json");
                        let mut v = v.clone();
                        v["property"] = json!(c.id);
                        v["thorough"] = json!(thorough);
                        let _ = std::fs::write(&f, v.to_string());
                        let st = std::process::Command::new(std::env::current_exe().unwrap())
                            .args(["replay", f.to_str().unwrap()])
                            .stdout(std::process::Stdio::null())
                            .stderr(std::process::Stdio::null())
                            .status();
                        if let Ok(st) = st {
                            if matches!(st.signal(), Some(6) | Some(11) | Some(7) | Some(4)) {
                                v["detail"] = json!(format!("the process died of {st}"));
                                found.push(v);
                                break;
                            }
                        }
                    }
                    if found.is_empty() {
                        eprintln!("the worker died of {status}, none of its cases does alone; {tail}");
                        return 2;
                    }
                    json!({"evals": 1, "distinct": 1, "n": {}, "samples": [], "bad": found, "trouble": [], "asked": 1})
                }
                _ => {
                    eprintln!("the worker ended with {status} and no result; {tail}");
                    return 2;
                }
            }
        }
    };
    let known = known(root, c.id);
    let mut fresh = vec![];
    let mut old = vec![];
    for b in res["bad"].as_array().unwrap_or(&vec![]) {
        let detail = b["detail"].as_str().unwrap_or("");
        let k = b["probe"].as_str().and_then(|p| known.iter().find(|k| k.0 == p && k.1 == detail));
        match k {
            Some(k) => old.push(k.2.clone()),
            None => fresh.push(b.clone()),
        }
    }
    let mut lines = vec![];
    if !fresh.is_empty() {
        let dir = root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        for b in fresh.iter().take(3) {
            let mut b = b.clone();
            b["property"] = json!(c.id);
            b["thorough"] = json!(thorough);
            let key = hash(b.to_string().as_bytes());
            let f = dir.join(format!("{}-{:08x}.json", c.id, key as u32));
            let _ = std::fs::write(&f, b.to_string());
            lines.push(format!("VIOLATION property={} replay={}", c.id, f.display()));
            lines.push(format!("  {}", crate::view::cut(b["detail"].as_str().unwrap_or(""))));
        }
    }
    let distinct = res["distinct"].as_u64().unwrap_or(0);
    let mut assumptions: Vec<&str> = c.assumptions.to_vec();
    assumptions.push("the observer (own zip, package and XML reader, reference content) is right");
    let ev = json!({
        "property": c.id,
        "tier": tier,
        "seed": seed,
        "level": c.level,
        "coverage": {
            "evaluations": res["evals"],
            "distinct_nontrivial": distinct,
            "rule": c.rule,
            "samples": res["samples"],
            "asked_for": res["asked"],
            "observed": res["n"],
            "known_findings_seen": old,
        },
        "assumptions": assumptions,
        "violations": fresh.len(),
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    let evf = root.join("evidence").join(format!("{}.json", c.id));
    let _ = std::fs::create_dir_all(root.join("evidence"));
    if std::fs::write(&evf, serde_json::to_string_pretty(&ev).unwrap() + "\n").is_err() {
        eprintln!("cannot write {}", evf.display());
        return 2;
    }
    let so = std::io::stdout();
    let mut so = so.lock();
    for k in &old {
        let _ = writeln!(so, "KNOWN-FINDING: property={} {}", c.id, k);
    }
    for l in &lines {
        let _ = writeln!(so, "{l}");
    }
    if !fresh.is_empty() {
        return 1;
    }
    let trouble = res["trouble"].as_array().cloned().unwrap_or_default();
    if !trouble.is_empty() {
        for t in trouble {
            eprintln!("harness trouble: {t}");
        }
        return 2;
    }
    if distinct < c.floor {
        eprintln!("only {distinct} distinct non-trivial cases were seen, fewer than {}", c.floor);
        return 2;
    }
    let _ = writeln!(
        so,
        "{} held: {} evaluations, {} distinct non-trivial, {:.1} s",
        c.id,
        res["evals"],
        distinct,
        start.elapsed().as_secs_f64()
    );
    0
}
