//! Several threads at once: what each gets is compared with what it gets alone.

use crate::alloc;
use crate::check::*;
use crate::checks::{pack, size, PLAIN};
use crate::cmp::{self, Side};
use crate::gen::*;
use crate::pkg;
use crate::reads;
use crate::saves;
use crate::util::{hash, mix, Rng};
use crate::view;
use docx_rs::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

/// CPU time of this process in clock ticks.
fn cpu() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Steps of the threads in the order they took them.
#[derive(Default)]
struct Clock(AtomicU64);

impl Clock {
    fn tick(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst)
    }
}

struct Ran<T> {
    out: T,
    steps: Vec<u64>,
    ways: u64,
}

type Work<T> = Box<dyn FnOnce(&mut dyn FnMut()) -> T + Send>;

/// Starts all at the same moment. `Err` if one panics in the library or none gets on any more.
fn together<T: Send + 'static>(works: Vec<Work<T>>, seed: u64, rate: Option<u64>) -> Result<Vec<Ran<T>>, String> {
    let n = works.len();
    let gate = Arc::new(Barrier::new(n));
    let clock = Arc::new(Clock::default());
    let (tx, rx) = channel();
    for (i, w) in works.into_iter().enumerate() {
        let (gate, clock, tx) = (gate.clone(), clock.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                gate.wait();
                if let Some(rate) = rate {
                    alloc::give_way(mix(seed ^ i as u64), rate);
                }
                let mut steps = vec![clock.tick()];
                let out = guard(|| w(&mut || steps.push(clock.tick())));
                steps.push(clock.tick());
                let ways = alloc::stay();
                let _ = tx.send((i, out, steps, ways));
            })
            .expect("a thread");
    }
    drop(tx);
    let mut got: Vec<Option<Ran<T>>> = (0..n).map(|_| None).collect();
    let mut left = n;
    let (mut seen, mut since) = (cpu(), Instant::now());
    while left > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((i, Ok(out), steps, ways)) => {
                got[i] = Some(Ran { out, steps, ways });
                left -= 1;
                since = Instant::now();
            }
            Ok((_, Err(Caught::Library(e)), ..)) => return Err(format!("with {n} threads at work, one had a {e}")),
            Ok((_, Err(Caught::Harness(e)), ..)) => panic!("{e}"),
            Err(RecvTimeoutError::Disconnected) => panic!("a thread is gone"),
            Err(RecvTimeoutError::Timeout) => {
                // what waits uses no time: this loop itself takes a few ticks in a minute
                let c = cpu();
                match (c, seen) {
                    (Some(c), Some(s)) if c <= s + 20 => {
                        if since.elapsed() > Duration::from_secs(60) {
                            return Err(format!("{left} of {n} threads wait for each other"));
                        }
                    }
                    _ => {
                        seen = c;
                        since = Instant::now();
                    }
                }
            }
        }
    }
    Ok(got.into_iter().map(|x| x.unwrap()).collect())
}

/// The order of steps, as the threads that took them; how many pairs of threads were at work at once.
fn schedule<T>(ran: &[Ran<T>], cx: &mut Ctx) -> u64 {
    let mut order: Vec<(u64, usize)> = vec![];
    for (i, r) in ran.iter().enumerate() {
        order.extend(r.steps.iter().map(|s| (*s, i)));
        cx.obs.add("places inside the library where a thread gave way", r.ways);
    }
    order.sort();
    let switches = order.windows(2).filter(|w| w[0].1 != w[1].1).count();
    cx.obs.add("steps", order.len() as u64);
    cx.obs.add("steps after a step of another thread", switches as u64);
    let mut pairs = 0;
    for a in 0..ran.len() {
        for b in 0..a {
            let (x, y) = (&ran[a].steps, &ran[b].steps);
            if x[0] < *y.last().unwrap() && y[0] < *x.last().unwrap() {
                pairs += 1;
            }
        }
    }
    cx.obs.add("pairs of threads at work at once", pairs);
    let s: Vec<u8> = order.iter().map(|o| o.1 as u8).collect();
    hash(&s)
}

/// Ids handed out in a hurry.
fn handed_out(r: &mut Rng, seed: u64, n: usize, each: usize, cx: &mut Ctx) -> Out {
    let works: Vec<Work<Vec<(u8, String)>>> = (0..n)
        .map(|i| {
            let mut r = Rng::new(mix(seed ^ (i as u64) << 8));
            let kinds: Vec<u8> = match r.below(3) {
                0 => vec![0],
                1 => vec![*r.pick(&[0, 1, 2])],
                _ => vec![0, 1, 2],
            };
            Box::new(move |step: &mut dyn FnMut()| {
                let mut v = Vec::with_capacity(each);
                for k in 0..each {
                    let kind = kinds[k % kinds.len()];
                    let id = match kind {
                        0 => match Hyperlink::new("https://example.com/", HyperlinkType::External).link {
                            HyperlinkData::External { rid, .. } => rid,
                            _ => String::new(),
                        },
                        1 => Pic::new_with_dimensions(vec![], 1, 1).id,
                        _ => Footnote::new().id.to_string(),
                    };
                    v.push((kind, id));
                    if k % 64 == 63 {
                        step();
                    }
                }
                v
            }) as Work<_>
        })
        .collect();
    let ran = together(works, seed, if r.flip() { Some(50) } else { None })?;
    let mut owner: HashMap<(u8, String), usize> = HashMap::new();
    let mut order: BTreeMap<(u8, u64), usize> = BTreeMap::new();
    for (i, x) in ran.iter().enumerate() {
        for (kind, id) in &x.out {
            let what = ["link", "picture", "footnote"][*kind as usize];
            if let Some(o) = owner.insert((*kind, id.clone()), i) {
                return Err(format!("the {what} id {id} was handed out twice, to threads {o} and {i} of {n}"));
            }
            cx.obs.one(&format!("{what} ids handed out"));
            if let Ok(k) = id.trim_start_matches(|c: char| !c.is_ascii_digit()).parse() {
                order.insert((*kind, k), i);
            }
        }
    }
    let turns: Vec<usize> = order.values().copied().collect();
    let switches = turns.windows(2).filter(|w| w[0] != w[1]).count();
    cx.obs.add("ids handed out right after one for another thread", switches as u64);
    let s = schedule(&ran, cx);
    if switches > 0 {
        cx.obs.hit(s ^ hash(&turns.iter().map(|t| *t as u8).collect::<Vec<_>>()));
    }
    cx.obs.one("cases: ids in a hurry");
    Ok(())
}

fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::full();
    c.links = *r.pick(&[5, 20]);
    c.footnotes = *r.pick(&[3, 15]);
    c.tracked = *r.pick(&[10, 30]);
    c.bookmarks = *r.pick(&[5, 15]);
    c.comments = *r.pick(&[3, 12]);
    c.images = *r.pick(&[0, 3]);
    c.hostile = r.one_in(4);
    c
}

/// A thing to do, with a result that can be compared.
#[derive(Clone)]
enum Job {
    Build(u64, bool),
    Read(Arc<Vec<u8>>, Arc<BTreeSet<String>>),
    Flat(Arc<String>, Arc<BTreeSet<String>>),
    Save(Arc<Docx>, bool),
    Show(Arc<Docx>),
}

#[derive(PartialEq)]
enum Got {
    Saved(Vec<u8>),
    Report(Value, Arc<BTreeSet<String>>),
    Text(String),
}

fn make(seed: u64) -> (Gen, Docx) {
    let mut r = Rng::new(seed ^ 19);
    let c = size(cfg(&mut r), seed);
    let mut g = Gen::new(seed, c);
    let d = g.docx();
    (g, d)
}

fn run(j: &Job, step: &mut dyn FnMut()) -> Result<Got, String> {
    Ok(match j {
        Job::Build(seed, rendered) => {
            let d = make(*seed).1;
            step();
            Got::Saved(pack(d, *rendered)?)
        }
        Job::Read(b, own) => {
            reads::away(own);
            let d = read_docx(b).map_err(|e| format!("cannot be read: {e}"))?;
            step();
            Got::Report(reads::json_of(&d)?, own.clone())
        }
        Job::Flat(x, own) => {
            reads::away(own);
            let d = read_xml(x).map_err(|e| format!("cannot be read: {e}"))?;
            step();
            Got::Report(reads::json_of(&d)?, own.clone())
        }
        Job::Save(d, rendered) => {
            let d = (**d).clone();
            step();
            Got::Saved(pack(d, *rendered)?)
        }
        Job::Show(d) => Got::Text(d.json()),
    })
}

fn same(what: &str, alone: &Got, got: &Got, cx: &mut Ctx) -> Out {
    match (alone, got) {
        (Got::Saved(a), Got::Saved(b)) => {
            let p = cmp::open(b).map_err(|e| format!("{what}: {e}"))?;
            saves::census(&p, cx).map_err(|e| format!("{what}: {e}"))?;
            saves::same(what, &saves::settled(&cmp::open(a)?)?, &saves::settled(&p)?)
        }
        (Got::Report(a, own), Got::Report(b, _)) => {
            let (mut a, mut b) = (a.clone(), b.clone());
            let mine = |x: &str| own.contains(x);
            reads::settle(&mut a, &reads::no_back(), &mine);
            reads::settle(&mut b, &reads::no_back(), &mine);
            match reads::differ(&a, &b, "") {
                Some(d) => Err(format!("{what}: {d}")),
                None => Ok(()),
            }
        }
        (Got::Text(a), Got::Text(b)) if a == b => Ok(()),
        _ => Err(format!("{what}: another report")),
    }
}

fn jobs(r: &mut Rng, seed: u64, n: usize) -> Result<Vec<Vec<Job>>, String> {
    let shared: Vec<Arc<Docx>> = if r.flip() { vec![Arc::new(make(mix(seed ^ 1)).1)] } else { vec![] };
    let mut files = vec![];
    for i in 0..2 {
        let (_, mut p) = reads::subject(mix(seed ^ 100 + i), r, Cfg::full().readable(), 30)?;
        if let Ok(m) = p.main_part() {
            if p.related(&m, "numbering")?.is_none() && p.parts.remove("word/numbering.xml").is_some() {
                p.order.retain(|n| n != "word/numbering.xml");
            }
        }
        files.push((Arc::new(pkg::zip(&p, None)), Arc::new(reads::flat(&p, r)), Arc::new(reads::para_ids(&p))));
    }
    let style = r.below(4);
    Ok((0..n)
        .map(|i| {
            (0..1 + r.us(3))
                .map(|k| match (style, r.below(if shared.is_empty() { 4 } else { 6 })) {
                    // all save the same, or documents of their own
                    (0, 0 | 1) if !shared.is_empty() => Job::Save(shared[0].clone(), r.flip()),
                    (1, _) | (_, 0 | 1) => Job::Build(mix(seed ^ ((i * 16 + k) as u64) << 20), r.flip()),
                    (_, 2) => {
                        let f = r.pick(&files);
                        Job::Read(f.0.clone(), f.2.clone())
                    }
                    (_, 3) => {
                        let f = r.pick(&files);
                        Job::Flat(f.1.clone(), f.2.clone())
                    }
                    (_, 4) => Job::Save(shared[0].clone(), r.flip()),
                    _ => Job::Show(shared[0].clone()),
                })
                .collect()
        })
        .collect())
}

/// Jobs of several threads against the same jobs one after another.
fn side_by_side(r: &mut Rng, seed: u64, n: usize, cx: &mut Ctx) -> Out {
    let jobs = jobs(r, seed, n)?;
    let mut alone = vec![];
    for t in &jobs {
        let mut v = vec![];
        for j in t {
            v.push(run(j, &mut || ()));
        }
        alone.push(v);
    }
    let works: Vec<Work<Vec<Result<Got, String>>>> = jobs
        .iter()
        .cloned()
        .map(|t| {
            Box::new(move |step: &mut dyn FnMut()| {
                t.iter()
                    .map(|j| {
                        step();
                        run(j, step)
                    })
                    .collect()
            }) as Work<_>
        })
        .collect();
    let rate = *r.pick(&[None, Some(3), Some(20), Some(200), Some(2000)]);
    let ran = together(works, seed, rate)?;
    for (i, (x, a)) in ran.iter().zip(&alone).enumerate() {
        for (k, (g, w)) in x.out.iter().zip(a).enumerate() {
            let (kind, what) = match &jobs[i][k] {
                Job::Build(..) => ("documents built and saved", "a document built and saved"),
                Job::Read(..) => ("packages read", "a package read"),
                Job::Flat(..) => ("flat packages read", "a flat package read"),
                Job::Save(..) => ("shared documents saved", "a shared document saved"),
                Job::Show(_) => ("shared documents reported", "a shared document reported"),
            };
            cx.obs.one(kind);
            let what = format!("{what} while {} other threads were at work", n - 1);
            match (w, g) {
                (Ok(w), Ok(g)) => same(&what, w, g, cx)?,
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => return Err(format!("{what}: {e}")),
                (Err(e), Ok(_)) => return Err(format!("{what}, but alone: {e}")),
            }
        }
    }
    let s = schedule(&ran, cx);
    cx.obs.hit(mix(s) ^ seed);
    cx.obs.one("cases: threads with jobs of their own");
    cx.obs.sample(|| json!({"case": seed.to_string(), "threads": n, "steps of each": ran.iter().map(|x| x.steps.clone()).collect::<Vec<_>>()}));
    Ok(())
}

/// Paragraphs made by several threads, while others save, end up in one document.
fn pieces(r: &mut Rng, seed: u64, n: usize, cx: &mut Ctx) -> Out {
    let c = Cfg {
        sections: 0,
        toc: 0,
        styles: 0,
        numbering: 0,
        comments: 0,
        headers: 0,
        para_ids: 0,
        sdt: 0,
        hostile: false,
        ..cfg(r)
    };
    type Piece = Vec<(Paragraph, crate::xml::El)>;
    let savers = r.us(n);
    let works: Vec<Work<Result<Piece, String>>> = (0..n)
        .map(|i| {
            let c = c.clone();
            Box::new(move |step: &mut dyn FnMut()| {
                if i < savers {
                    for k in 0..3 {
                        step();
                        let d = make(mix(seed ^ ((i * 4 + k) as u64) << 30)).1;
                        step();
                        pack(d, k == 1)?;
                    }
                    return Ok(vec![]);
                }
                let mut g = Gen::new(mix(seed ^ i as u64), c).apart(10000 * i);
                let mut v = vec![];
                for k in 0..2 + g.r.us(6) {
                    step();
                    v.push(g.para(Place::Body));
                    if k == 1 {
                        // saving starts the numbers of this thread again
                        let d = Docx::new().add_paragraph(Paragraph::new());
                        pack(d, false)?;
                    }
                }
                Ok(v)
            }) as Work<_>
        })
        .collect();
    let ran = together(works, seed, *r.pick(&[None, Some(5), Some(100)]))?;
    let s = schedule(&ran, cx);
    let mut all = vec![];
    for x in ran {
        all.extend(x.out?);
    }
    r.shuffle(&mut all);
    let mut d = Docx::new();
    let mut want = vec![];
    for (p, e) in all {
        d = d.add_paragraph(p);
        want.push(e);
    }
    let p = cmp::open(&pack(d, r.flip())?)?;
    saves::census(&p, cx)?;
    let mut got = view::view(&p, PLAIN)?;
    let plain = |k: &crate::xml::Node| !matches!(k, crate::xml::Node::E(e) if e.name == "w:sectPr");
    got.body.kids.retain(plain);
    let mut w = cmp::want(&Expect { body: want, ..Default::default() }, PLAIN);
    w.body.kids.retain(plain);
    if let Some(x) = view::diff(&w.body, &got.body) {
        return Err(format!("a document of pieces made by {n} threads: {x}"));
    }
    cx.obs.one("cases: pieces of several threads in one document");
    cx.obs.hit(mix(s) ^ seed);
    Ok(())
}

/// Documents of several threads hold what they were given.
fn own(r: &mut Rng, seed: u64, n: usize, cx: &mut Ctx) -> Out {
    let works: Vec<Work<Result<(Gen, Vec<u8>), String>>> = (0..n)
        .map(|i| {
            Box::new(move |step: &mut dyn FnMut()| {
                let (g, d) = make(mix(seed ^ (i as u64) << 40));
                step();
                let d2 = d.clone();
                let b = pack(d2, i % 2 == 0)?;
                step();
                let _ = d.json();
                Ok((g, b))
            }) as Work<_>
        })
        .collect();
    let ran = together(works, seed, *r.pick(&[None, Some(10), Some(100)]))?;
    let s = schedule(&ran, cx);
    for x in ran {
        let (g, b) = x.out?;
        let p = cmp::open(&b)?;
        saves::census(&p, cx)?;
        let v = view::view(&p, PLAIN)?;
        cmp::compare(&cmp::want(&g.e, PLAIN), &v, &[Side::Body, Side::Comments], false)
            .map_err(|e| format!("a document built and saved while {} other threads were at work: {e}", n - 1))?;
        cx.obs.one("documents compared with what they were given");
    }
    cx.obs.one("cases: documents against what they were given");
    cx.obs.hit(mix(s) ^ seed);
    Ok(())
}

fn c19(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 19);
    let n = *r.pick(&[2, 3, 4, 8, 8, 12]);
    match r.below(10) {
        0 => handed_out(&mut r, seed, n, 20_000, cx),
        1 | 2 => pieces(&mut r, seed, n, cx),
        3 | 4 => own(&mut r, seed, n, cx),
        _ => side_by_side(&mut r, seed, n, cx),
    }
}

/// A shorter run, for a binary built with a race detector. Prints what was seen.
pub fn race(seed: u64, cases: u64) {
    hook_panics();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut cx = Ctx { obs: Obs::default(), thorough: false, scratch: std::env::temp_dir() };
        for i in 0..cases {
            let s = case_seed("C19", seed, i);
            let mut r = Rng::new(s);
            let n = *r.pick(&[2, 3, 4, 8]);
            let out = guard(|| match r.below(4) {
                0 => handed_out(&mut r, s, n, 500, &mut cx),
                1 => pieces(&mut r, s, n, &mut cx),
                2 => own(&mut r, s, n, &mut cx),
                _ => side_by_side(&mut r, s, n, &mut cx),
            });
            match out {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(Caught::Library(e)) => {
                    println!("BROKEN {}", json!({"seed": s, "detail": e}));
                    std::process::exit(1);
                }
                Err(Caught::Harness(e)) => {
                    println!("TROUBLE {e}");
                    std::process::exit(2);
                }
            }
        }
        println!("RACED {}", json!({"cases": cases, "distinct": cx.obs.distinct.len(), "n": cx.obs.n}));
    });
    let _ = h.expect("a thread").join();
}

/// The same work in a binary built with ThreadSanitizer; run.sh builds it and says where it is.
fn probe_detector(cx: &mut Ctx) -> Out {
    let Ok(bin) = std::env::var("MON_TSAN") else {
        cx.obs.one("race detector: not built here");
        return Ok(());
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let cases = if cx.thorough { 1000 } else { 60 };
    let out = std::process::Command::new(&bin)
        .args(["race", &seed.to_string(), &cases.to_string()])
        .env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 history_size=4")
        .output()
        .expect("the race detector starts");
    let (so, se) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    let mut races = vec![];
    for rep in se.split("==================").filter(|t| t.contains("WARNING: ThreadSanitizer")) {
        let what = rep.lines().find(|l| l.contains("WARNING: ThreadSanitizer")).unwrap_or("");
        let what = what.split("ThreadSanitizer: ").nth(1).unwrap_or(what).split(" (pid").next().unwrap_or("");
        let at = rep.lines().filter(|l| l.trim_start().starts_with('#') && l.contains("docx")).next();
        match at {
            Some(l) => races.push(format!("{what} at {}", l.split_whitespace().nth(1).unwrap_or(""))),
            None => panic!("the race detector reports {what} outside the library: {}", view::cut(rep)),
        }
    }
    if let Some(r) = races.first() {
        return Err(format!("the race detector reports a {r}"));
    }
    if let Some(l) = so.lines().find_map(|l| l.strip_prefix("BROKEN ")) {
        return Err(format!("under the race detector: {l}"));
    }
    let Some(v) = so.lines().find_map(|l| l.strip_prefix("RACED ")).and_then(|l| serde_json::from_str::<Value>(l).ok()) else {
        panic!("the race detector ended with {:?}: {} {}", out.status, view::cut(&so), view::cut(&se));
    };
    cx.obs.add("race detector: cases", v["cases"].as_u64().unwrap_or(0));
    for (k, n) in v["n"].as_object().into_iter().flatten() {
        if k.starts_with("pairs") || k.starts_with("steps") || k.starts_with("ids handed") || k.starts_with("documents") {
            cx.obs.add(&format!("race detector: {k}"), n.as_u64().unwrap_or(0));
        }
    }
    Ok(())
}

pub const ALL: &[Check] = &[Check {
    id: "C19",
    rule: "threads at work at once, by what they did and the order of their steps",
    assumptions: &["ids drawn from process-wide counters are renamed by the order they occur in"],
    level: "exploration",
    cases: 1000,
    deep: 30,
    threads: 8,
    floor: 150,
    case: c19,
    probes: &[("race-detector", probe_detector)],
}];
