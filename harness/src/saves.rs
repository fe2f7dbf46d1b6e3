//! The checks on saving: identifiers, repeatability, failing sinks, several threads.

use crate::check::*;
use crate::checks::{build, pack, size, PLAIN};
use crate::cmp::{self, Side};
use crate::gen::*;
use crate::pkg::Package;
use crate::util::{hash, mix, Rng};
use crate::view;
use crate::xml::{El, Node};
use docx_rs::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{self, Cursor, Seek, SeekFrom, Write};

// ---------------------------------------------------------------- ids put in order

/// Renames ids that come out of counters by the order they occur in.
#[derive(Default)]
struct Renamer {
    names: HashMap<String, String>,
    counts: HashMap<String, usize>,
}

impl Renamer {
    fn id(&mut self, class: &str, v: &str) -> String {
        if let Some(s) = self.names.get(&format!("{class} {v}")) {
            return s.clone();
        }
        let n = self.counts.entry(class.into()).or_insert(0);
        *n += 1;
        let s = format!("{class}#{n}");
        self.names.insert(format!("{class} {v}"), s.clone());
        s
    }
    fn string(&mut self, s: &str) -> String {
        let mut out = String::new();
        let mut rest = s;
        'outer: while !rest.is_empty() {
            for p in ["rIdImage", "rIdHyperlink", "_Toc"] {
                if let Some(t) = rest.strip_prefix(p) {
                    let n = t.bytes().take_while(|c| c.is_ascii_digit() || *c == b'_').count();
                    if n > 0 {
                        out += &self.id(p, &t[..n]);
                        rest = &t[n..];
                        continue 'outer;
                    }
                }
            }
            let c = rest.chars().next().unwrap();
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
        out
    }
    fn el(&mut self, e: &mut El) {
        let class = match e.name.as_str() {
            n if n.starts_with("w:comment") => None,
            n if n.starts_with("w:footnote") => Some("note"),
            n if n.starts_with("w:bookmark") => Some("mark"),
            "w:pPrChange" => Some("property change"),
            _ => Some("change"),
        };
        for (k, v) in e.attrs.iter_mut() {
            *v = match (k.as_str(), class) {
                ("w:id", Some(c)) => self.id(c, v),
                ("w14:paraId" | "w15:paraId" | "w15:paraIdParent", _) => self.id("para", &v.to_uppercase()),
                _ => self.string(v),
            };
        }
        for k in e.kids.iter_mut() {
            match k {
                Node::E(x) => self.el(x),
                Node::T(t) => {
                    if t.contains("_Toc") {
                        *t = self.string(t)
                    }
                }
            }
        }
    }
}

/// The package with ids out of counters renamed: names and contents in the order they were written.
pub fn settled(p: &Package) -> Result<Vec<(String, String)>, String> {
    let mut r = Renamer::default();
    let mut out = vec![];
    // the main part first: it is where most things are made
    let main = p.main_part()?;
    let mut trees: BTreeMap<&str, El> = BTreeMap::new();
    for n in std::iter::once(&main).chain(p.order.iter().filter(|n| **n != main)) {
        if Package::is_xml(n) {
            let mut x = p.xml(n)?;
            r.el(&mut x);
            trees.insert(n, x);
        }
    }
    for n in &p.order {
        let body = match trees.remove(n.as_str()) {
            Some(x) => x.dump(),
            None => format!("{} bytes, {:x}", p.parts[n].len(), hash(&p.parts[n])),
        };
        out.push((r.string(n), body));
    }
    Ok(out)
}

pub fn same(what: &str, a: &[(String, String)], b: &[(String, String)]) -> Out {
    let names = |v: &[(String, String)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    if names(a) != names(b) {
        return Err(format!("{what}: entries {:?} against {:?}", names(a), names(b)));
    }
    for (x, y) in a.iter().zip(b) {
        if x.1 != y.1 {
            let (l, r) = x.1.lines().zip(y.1.lines()).find(|(l, r)| l != r).unwrap_or(("(ends)", "(ends)"));
            return Err(format!("{what}: {} has {:?} against {:?}", x.0, view::cut(l), view::cut(r)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

/// Every id of the package, by id space; what occurs twice is a problem.
pub fn census(p: &Package, cx: &mut Ctx) -> Out {
    let mut seen: BTreeMap<(&'static str, String), String> = BTreeMap::new();
    let mut ends: BTreeSet<String> = BTreeSet::new();
    let mut problem = None;
    let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
    for name in p.order.iter().filter(|n| Package::is_xml(n)) {
        let x = p.xml(name)?;
        x.walk(|e| {
            let mut put = |space: &'static str, id: &str| {
                *n.entry(space).or_insert(0) += 1;
                let at = format!("{name} <{}>", e.name);
                if let Some(old) = seen.insert((space, id.to_string()), at.clone()) {
                    if problem.is_none() {
                        problem = Some(format!("{space} {id:?} is used twice: {old}, {at}"));
                    }
                }
            };
            let id = e.attr("w:id").unwrap_or("");
            match e.name.as_str() {
                "w:p" => match e.attr("w14:paraId") {
                    Some(v) => put("paragraph id", &v.to_uppercase()),
                    None => {}
                },
                "w:ins" | "w:del" | "w:moveFrom" | "w:moveTo" => put("tracked change id", id),
                "w:pPrChange" => put("property change id", id),
                "w:bookmarkStart" => {
                    put("bookmark id", id);
                    put("bookmark name", e.attr("w:name").unwrap_or(""));
                }
                "w:bookmarkEnd" => {
                    if !ends.insert(id.into()) && problem.is_none() {
                        problem = Some(format!("bookmark {id} ends twice"));
                    }
                }
                "w:comment" => put("comment id", id),
                "w:commentRangeStart" => put("comment range", id),
                "w:footnote" => put("footnote id", id),
                "w:footnoteReference" => put("footnote reference", id),
                "w:abstractNum" => put("abstract numbering id", e.attr("w:abstractNumId").unwrap_or("")),
                "w:num" => put("numbering id", e.attr("w:numId").unwrap_or("")),
                "w:style" => put("style id", e.attr("w:styleId").unwrap_or("")),
                "w15:commentEx" => put("extended comment", &e.attr("w15:paraId").unwrap_or("").to_uppercase()),
                _ => {}
            }
        });
    }
    for (k, v) in n {
        cx.obs.add(&format!("{k}s"), v);
    }
    match problem {
        Some(p) => Err(p),
        None => Ok(()),
    }
}

fn texts(e: &El) -> String {
    let mut s = String::new();
    e.walk(|x| {
        if x.name == "w:t" || x.name == "w:delText" {
            s += &x.text();
            s.push('|');
        }
    });
    s
}

/// Chosen paragraph ids are still there, on the paragraphs they were chosen for.
fn chosen(want: &[&[El]], p: &Package, cx: &mut Ctx) -> Out {
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    for name in p.order.iter().filter(|n| Package::is_xml(n)) {
        let x = p.xml(name)?;
        x.walk(|e| {
            if e.name == "w:p" {
                if let Some(id) = e.attr("w14:paraId") {
                    got.insert(id.to_uppercase(), texts(e));
                }
            }
        });
    }
    let mut bad = None;
    for e in want.iter().flat_map(|v| v.iter()) {
        e.walk(|e| {
            if e.name == "w:p" && bad.is_none() {
                if let Some(id) = e.attr("w14:paraId") {
                    cx.obs.one("chosen paragraph ids found");
                    // text of notes is in a part of its own
                    let mut own = e.clone();
                    drop_notes(&mut own);
                    match got.get(id) {
                        Some(t) if *t == texts(&own) => {}
                        Some(t) => {
                            bad = Some(format!("paragraph id {id} should be on {:?}, is on {:?}", view::cut(&texts(&own)), view::cut(t)))
                        }
                        None => bad = Some(format!("the chosen paragraph id {id} is gone")),
                    }
                }
            }
        });
    }
    match bad {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn drop_notes(e: &mut El) {
    if e.name == "w:footnoteReference" || e.name == "w:headerReference" || e.name == "w:footerReference" {
        e.kids.clear();
    }
    for k in e.kids.iter_mut() {
        if let Node::E(x) = k {
            drop_notes(x);
        }
    }
}

fn ids_cfg(r: &mut Rng) -> Cfg {
    Cfg {
        tables: 10,
        sdt: 6,
        links: *r.pick(&[0, 15]),
        comments: *r.pick(&[0, 10, 25]),
        footnotes: *r.pick(&[0, 15]),
        images: *r.pick(&[0, 8]),
        bookmarks: *r.pick(&[0, 15]),
        tracked: *r.pick(&[0, 15, 30]),
        sections: 6,
        headers: *r.pick(&[0, 40]),
        numbering: 30,
        styles: 30,
        toc: 3,
        para_ids: *r.pick(&[0, 20, 60]),
        hostile: false,
        ..Cfg::none()
    }
}

fn number_after(s: &str, p: &str) -> Option<usize> {
    s.strip_prefix(p)?.parse().ok()
}

fn c08(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 8);
    let c = size(ids_cfg(&mut r), seed);
    match r.below(4) {
        // several documents at once
        0 => {
            let mut made = vec![];
            for i in 0..1 + r.below(3) {
                let mut g = Gen::new(mix(seed ^ i), size(ids_cfg(&mut r), mix(seed ^ i)));
                let d = if r.one_in(3) {
                    // made by a thread of its own
                    let g = &mut g;
                    std::thread::scope(|s| {
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || g.docx()).unwrap().join()
                    })
                    .map_err(|_| "building a document panicked".to_string())?
                } else {
                    g.docx()
                };
                made.push((g, d));
            }
            r.shuffle(&mut made);
            for (g, d) in made {
                if r.one_in(3) {
                    let _ = d.json();
                }
                for _ in 0..r.below(2) {
                    let _ = pack(d.clone(), r.flip())?;
                }
                let p = cmp::open(&pack(d, r.flip())?)?;
                census(&p, cx)?;
                chosen(&[&g.e.body, &g.e.comments], &p, cx)?;
                let v = view::view(&p, PLAIN)?;
                cmp::compare(&cmp::want(&g.e, PLAIN), &v, &[Side::Body, Side::Comments], false)?;
                note(cx, &p);
            }
            cx.obs.one("histories: several documents at once");
        }
        // pieces of several threads in one document
        1 => {
            let n = 2 + r.us(3);
            let c = Cfg { sections: 0, toc: 0, styles: 0, numbering: 0, comments: 0, headers: 0, ..c };
            let mut parts = vec![];
            std::thread::scope(|s| {
                let mut hs = vec![];
                for i in 0..n {
                    let c = c.clone();
                    hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                        let mut g = Gen::new(mix(seed ^ i as u64), c).apart(10000 * i);
                        let ps: Vec<_> = (0..1 + g.r.us(6)).map(|_| g.para(Place::Body)).collect();
                        ps
                    }));
                }
                for h in hs {
                    parts.push(h.unwrap().join());
                }
            });
            let mut all = vec![];
            for p in parts {
                all.extend(p.map_err(|_| "building paragraphs panicked".to_string())?);
            }
            r.shuffle(&mut all);
            let mut d = Docx::new();
            let mut want = vec![];
            for (p, e) in all {
                let e2 = e.clone();
                want.push(e);
                // a copy of a paragraph is another paragraph
                let plain = !["w:bookmark", "w:footnote", "w14:paraId"].iter().any(|k| e2.flat().contains(k));
                if plain && r.one_in(4) {
                    d = d.add_paragraph(p.clone());
                    want.push(e2);
                }
                d = d.add_paragraph(p);
            }
            let p = cmp::open(&pack(d, r.flip())?)?;
            census(&p, cx)?;
            // ids chosen on two threads can be the same by chance
            let mut got = view::view(&p, PLAIN)?;
            got.body.kids.retain(|k| !matches!(k, Node::E(e) if e.name == "w:sectPr"));
            let mut w = cmp::want(&Expect { body: want, ..Default::default() }, PLAIN);
            w.body.kids.retain(|k| !matches!(k, Node::E(e) if e.name == "w:sectPr"));
            if let Some(x) = view::diff(&w.body, &got.body) {
                return Err(x);
            }
            note(cx, &p);
            cx.obs.one("histories: pieces of several threads");
        }
        // a document that was read, with new content
        _ => {
            let mut c1 = c.clone().readable();
            c1.sections = 0;
            c1.headers = 0;
            let b = build(seed, c1)?;
            let mut p = b.pkg;
            // the file uses the ids that are handed out next
            let mut used = BTreeSet::new();
            if r.pct(80) {
                let next = |s: &str, p: &str| number_after(s, p).unwrap_or(0);
                let hl = match Hyperlink::new("x", HyperlinkType::External).link {
                    HyperlinkData::External { rid, .. } => next(&rid, "rIdHyperlink"),
                    _ => 0,
                };
                let im = next(&Pic::new_with_dimensions(vec![], 1, 1).id, "rIdImage");
                let mut names: Vec<String> = vec![];
                let rels = p.rels(&p.main_part()?)?;
                for x in rels {
                    if x.id.starts_with("rIdHyperlink") || x.id.starts_with("rIdImage") {
                        names.push(x.id);
                    }
                }
                names.sort_by_key(|n| std::cmp::Reverse(n.len()));
                let (mut hl, mut im) = (hl, im);
                let mut map = vec![];
                for n in names {
                    let k = if n.starts_with("rIdH") {
                        hl += 1 + r.us(2);
                        format!("rIdHyperlink{hl}")
                    } else {
                        im += 1 + r.us(2);
                        format!("rIdImage{im}")
                    };
                    used.insert(k.clone());
                    map.push((n, k));
                }
                for (name, body) in p.parts.iter_mut() {
                    if name == "word/document.xml" || name == "word/_rels/document.xml.rels" {
                        let mut s = String::from_utf8(body.clone()).map_err(|e| e.to_string())?;
                        for (i, (a, _)) in map.iter().enumerate() {
                            s = s.replace(&format!("\"{a}\""), &format!("\"@@{i}@@\""));
                        }
                        for (i, (_, b)) in map.iter().enumerate() {
                            s = s.replace(&format!("\"@@{i}@@\""), &format!("\"{b}\""));
                        }
                        *body = s.into_bytes();
                    }
                }
            }
            let bytes = crate::pkg::zip(&p, None);
            let mut d = read_docx(&bytes).map_err(|e| format!("a saved document cannot be read: {e}"))?;
            let mut c2 = c.clone();
            c2.sections = 0;
            c2.headers = 0;
            c2.toc = 0;
            c2.styles = 0;
            c2.numbering = 0;
            c2.footnotes = 0;
            c2.para_ids = 0;
            let mut g = Gen::new(mix(seed ^ 77), c2).apart(100_000);
            let mut want = cmp::as_read(&b.want);
            let at = want.body.kids.iter().position(|k| matches!(k, Node::E(e) if e.name == "w:sectPr"));
            let mut tail = match at {
                Some(i) => want.body.kids.split_off(i),
                None => vec![],
            };
            let mut add = El::new("w:body");
            let before = g.e.comments.len();
            for _ in 0..1 + r.us(8) {
                if r.one_in(4) {
                    let (t, e) = g.table(Place::Body);
                    d = d.add_table(t);
                    add.push(e);
                } else {
                    let (x, e) = g.para(Place::Body);
                    if let Some(ParagraphChild::Hyperlink(h)) = x.children.first() {
                        if let HyperlinkData::External { rid, .. } = &h.link {
                            if used.contains(rid) {
                                cx.obs.one("ids both read and handed out");
                            }
                        }
                    }
                    d = d.add_paragraph(x);
                    add.push(e);
                }
            }
            // whatever is still open
            let mut extra = Expect { body: vec![], comments: g.e.comments[before..].to_vec(), ..Default::default() };
            for k in std::mem::take(&mut add.kids) {
                if let Node::E(e) = k {
                    extra.body.push(e);
                }
            }
            let mut x = cmp::want(&extra, PLAIN);
            want.body.kids.extend(std::mem::take(&mut x.body.kids).into_iter().filter(|k| !matches!(k, Node::E(e) if e.name == "w:sectPr")));
            want.body.kids.append(&mut tail);
            let open = g.unclosed();
            want.comments.kids.extend(std::mem::take(&mut x.comments.kids));
            let p2 = cmp::open(&pack(d, r.flip())?)?;
            census(&p2, cx)?;
            if !open {
                let got = view::view(&p2, PLAIN)?;
                cmp::compare(&want, &got, &[Side::Body, Side::Comments], true)?;
            }
            note(cx, &p2);
            cx.obs.one("histories: read, then added to");
        }
    }
    Ok(())
}

fn note(cx: &mut Ctx, p: &Package) {
    let s = settled(p).unwrap_or_default();
    let mut h = 0;
    for x in &s {
        h = mix(h ^ hash(x.1.as_bytes()));
    }
    cx.obs.hit(h);
    cx.obs.add("parts", s.len() as u64);
    cx.obs.sample(|| json!({"parts": p.order}));
}

// ---------------------------------------------------------------- C17

fn full(seed: u64, r: &mut Rng) -> Cfg {
    let mut c = size(Cfg::full(), seed);
    if r.one_in(3) {
        c.tracked = 0;
    }
    c
}

/// `mon bytes seed...`: one hash for each document, built and saved in this process.
pub fn bytes(seeds: &[String]) {
    for s in seeds {
        let seed: u64 = s.parse().unwrap();
        let mut r = Rng::new(seed ^ 17);
        let mut g = Gen::new(seed, full(seed, &mut r));
        let d = g.docx();
        let j = hash(d.json().as_bytes());
        let a = pack(d.clone(), false).unwrap();
        let b = pack(d, true).unwrap();
        let k = match read_docx(&a) {
            Ok(d) => hash(d.json().as_bytes()),
            Err(_) => 0,
        };
        println!("{seed} {:016x} {:016x} {j:016x} {k:016x}", hash(&a), hash(&b));
    }
}

fn processes(seed: u64, r: &mut Rng, cx: &mut Ctx) -> Out {
    let seeds: Vec<String> = (0..24).map(|i| mix(seed ^ (i << 20)).to_string()).collect();
    let run = |envs: &[(&str, &str)], dir: &std::path::Path| -> Result<String, String> {
        let o = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
            .arg("bytes")
            .args(&seeds)
            .envs(envs.iter().copied())
            .current_dir(dir)
            .output()
            .map_err(|e| format!("cannot start: {e}"))?;
        if !o.status.success() {
            return Err(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
        }
        Ok(String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let a = run(&[("TZ", "UTC"), ("LANG", "C")], std::path::Path::new("/"))?;
    // archives store times in steps of two seconds
    std::thread::sleep(std::time::Duration::from_millis(2100));
    let tz = *r.pick(&["Asia/Tokyo", "America/New_York", "XXX5:30"]);
    let dir = cx.scratch.clone();
    let b = run(&[("TZ", tz), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("HOME", "/nonexistent"), ("SOURCE_DATE_EPOCH", "1")], &dir)?;
    cx.obs.add("pairs of processes", 1);
    for (x, y) in a.lines().zip(b.lines()) {
        cx.obs.add("documents saved in two processes", 1);
        if x != y {
            return Err(format!(
                "two processes do not agree on a document (seed, saved directly, rendered first, JSON, JSON read back): {x} against {y}"
            ));
        }
        cx.obs.hit(hash(x.as_bytes()));
    }
    if a.lines().count() != seeds.len() || b.lines().count() != seeds.len() {
        panic!("{} documents asked for, {} and {} seen", seeds.len(), a.lines().count(), b.lines().count());
    }
    Ok(())
}

fn c17(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 17);
    if seed % 64 == 0 {
        return processes(seed, &mut r, cx);
    }
    let c = full(seed, &mut r);
    let mut g = Gen::new(seed, c.clone());
    let mut d = g.docx();
    let mut read = false;
    if r.one_in(4) {
        // a document that was read
        let bytes = pack(d, true)?;
        d = read_docx(&bytes).map_err(|e| format!("a saved document cannot be read: {e}"))?;
        read = true;
        cx.obs.one("documents read from a file");
    }
    let json = d.json();
    let first = pack(d.clone(), false)?;
    let p = cmp::open(&first)?;
    let base = settled(&p)?;
    let saved_ids = p.parts.values().any(|b| b.windows(7).any(|w| w == b"<w:ins " || w == b"<w:del ") || b.windows(7).any(|w| w == b"<w:move"))
        || p.parts.values().any(|b| b.windows(13).any(|w| w == b"<w:pPrChange "));
    let second = pack(d.clone(), true)?;
    let heads = |b: &[u8]| {
        let mut r = Renamer::default();
        crate::pkg::headers(b).into_iter().map(|(n, v)| (r.string(&n), format!("{v:?}"))).collect::<Vec<_>>()
    };
    let h = heads(&first);
    let raw = |what: &str, rendered: Option<bool>, b: &[u8], cx: &mut Ctx| -> Out {
        cx.obs.one(&format!("saved: {what}"));
        same(what, &base, &settled(&cmp::open(b)?)?)?;
        same(&format!("{what}, archive headers"), &h, &heads(b))?;
        // ids given to changes while saving count up
        if let (Some(rendered), false) = (rendered, saved_ids) {
            cx.obs.one("compared byte by byte");
            if b != if rendered { &second } else { &first } {
                return Err(format!("{what}: the archives differ in their bytes, not in their parts"));
            }
        }
        Ok(())
    };
    raw("rendered first", Some(true), &second, cx)?;
    let mut k = 0;
    for _ in 0..3 + r.below(5) {
        k += 1;
        match r.below(9) {
            0 => raw("directly", Some(false), &pack(d.clone(), false)?, cx)?,
            1 => raw("rendered first", Some(true), &pack(d.clone(), true)?, cx)?,
            2 => {
                let f = cx.scratch.join(format!("c17-{seed}.docx"));
                let rendered = r.flip();
                let file = std::fs::File::create(&f).map_err(|e| e.to_string())?;
                let res = match (rendered, r.flip()) {
                    (false, false) => d.clone().pack(file),
                    (true, false) => d.clone().build().pack(file),
                    (false, true) => d.clone().pack(io::BufWriter::new(file)),
                    (true, true) => d.clone().build().pack(&mut io::BufWriter::new(file)),
                };
                res.map_err(|e| format!("saving to a file failed: {e}"))?;
                let b = std::fs::read(&f).map_err(|e| e.to_string())?;
                let _ = std::fs::remove_file(&f);
                raw("to a file", Some(rendered), &b, cx)?;
            }
            3 => {
                let mut buf = vec![];
                d.clone().pack(&mut Cursor::new(&mut buf)).map_err(|e| format!("saving to memory failed: {e}"))?;
                raw("to a borrowed buffer", Some(false), &buf, cx)?;
            }
            4 => {
                // a copy of a copy, with the first one gone
                let x = d.clone();
                let y = x.clone();
                drop(x);
                let f = r.flip();
                raw("a copy", Some(f), &pack(y, f)?, cx)?;
            }
            5 => {
                let f = r.flip();
                let b = std::thread::scope(|s| {
                    let d = d.clone();
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || pack(d, f)).unwrap().join()
                })
                .map_err(|_| "saving on a thread panicked".to_string())??;
                raw("on another thread", Some(f), &b, cx)?;
            }
            6 => {
                // something else in between
                let mut g = Gen::new(mix(seed ^ k), size(Cfg::full(), 5));
                let _ = pack(g.docx(), r.flip())?;
                let f = r.flip();
                raw("after another document", Some(f), &pack(d.clone(), f)?, cx)?;
            }
            7 => {
                let _ = d.json();
                let f = r.flip();
                raw("after asking for JSON", Some(f), &pack(d.clone(), f)?, cx)?;
            }
            _ => {
                let mut x = d.clone();
                let j = x.json_with_update_comments();
                let j2 = x.json_with_update_comments();
                if j != j2 {
                    return Err("asking for JSON with comments twice gives two answers".into());
                }
                raw("after asking for JSON with comments", None, &pack(x, r.flip())?, cx)?;
            }
        }
        if d.json() != json {
            return Err("saving a copy changed what the document reports as JSON".into());
        }
    }
    if !read {
        // the same calls again
        let mut g2 = Gen::new(seed, c);
        let d2 = g2.docx();
        let b = pack(d2, r.flip())?;
        cx.obs.one("built again");
        same("built again", &base, &settled(&cmp::open(&b)?)?)?;
    }
    let mut h = 0;
    for x in &base {
        h = mix(h ^ hash(x.1.as_bytes()));
    }
    cx.obs.hit(h);
    cx.obs.sample(|| json!({"case": seed.to_string(), "parts": base.iter().map(|x| x.0.clone()).collect::<Vec<_>>()}));
    let _ = g;
    Ok(())
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Never,
    Once(u64),
    From(u64),
    /// accepts nothing
    Zero(u64),
}

struct Sink {
    inner: Cursor<Vec<u8>>,
    ops: u64,
    kinds: [u64; 3],
    how: How,
    kind: io::ErrorKind,
    short: Option<Rng>,
    interrupt: Option<Rng>,
    failed: std::sync::Arc<std::sync::atomic::AtomicBool>,
}

impl Sink {
    fn new(how: How, kind: io::ErrorKind) -> Sink {
        Sink {
            inner: Cursor::new(vec![]),
            ops: 0,
            kinds: [0; 3],
            how,
            kind,
            short: None,
            interrupt: None,
            failed: Default::default(),
        }
    }
    fn op(&mut self, what: usize) -> io::Result<bool> {
        let k = self.ops;
        self.ops += 1;
        self.kinds[what] += 1;
        let hit = match self.how {
            How::Never => false,
            How::Once(n) => n == k,
            How::From(n) => n <= k,
            How::Zero(n) => {
                if n <= k && what == 0 {
                    self.failed.store(true, std::sync::atomic::Ordering::SeqCst);
                    return Ok(false);
                }
                false
            }
        };
        if hit {
            self.failed.store(true, std::sync::atomic::Ordering::SeqCst);
            return Err(io::Error::new(self.kind, "the sink is broken"));
        }
        Ok(true)
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.op(0)? {
            return Ok(0);
        }
        if let Some(r) = &mut self.interrupt {
            if r.one_in(3) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
            }
        }
        let n = match &mut self.short {
            Some(r) if b.len() > 1 => 1 + r.us(b.len()),
            _ => b.len(),
        };
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op(2)?;
        Ok(())
    }
}

impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.op(1)?;
        self.inner.seek(p)
    }
}

fn save_to(d: &Docx, s: &mut Sink, rendered: bool) -> Result<(), String> {
    let r = if rendered { d.clone().build().pack(s) } else { d.clone().pack(s) };
    r.map_err(|e| e.to_string())
}

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidInput,
];

fn c18(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 18);
    let c = Cfg { max_blocks: 3, tracked: 0, custom: 60, images: *r.pick(&[0, 20]), ..Cfg::full() };
    let mut g = Gen::new(seed, c);
    let mut d = g.docx();
    let mut large = String::new();
    if r.one_in(6) {
        // more than fits any buffer on the way
        let n = 100_000 + r.us(300_000);
        let t: String = (0..n).map(|_| (0x30 + r.below(0x4a)) as u8 as char).filter(|c| c.is_ascii_alphanumeric()).collect();
        large = t.clone();
        d = d.add_paragraph(Paragraph::new().add_run(Run::new().add_text(t)));
        cx.obs.one("documents with a large part");
    }
    let rendered = r.flip();
    let mut plain = Sink::new(How::Never, io::ErrorKind::Other);
    save_to(&d, &mut plain, rendered).map_err(|e| format!("saving to memory failed: {e}"))?;
    let ops = plain.ops;
    cx.obs.add("operations on the sink", ops);
    cx.obs.add("writes", plain.kinds[0]);
    cx.obs.add("seeks", plain.kinds[1]);
    cx.obs.add("flushes", plain.kinds[2]);
    let bytes = plain.inner.into_inner();
    let p = cmp::open(&bytes)?;
    for n in p.parts.keys().filter(|n| Package::is_xml(n)) {
        p.xml(n).map_err(|e| format!("saving reported success, but {n} is not complete: {e}"))?;
    }
    if !String::from_utf8_lossy(&p.parts[&p.main_part()?]).contains(&large) {
        return Err(format!("saving reported success, but not all of a text of {} bytes is there", large.len()));
    }
    // every point it can fail at
    let all = ops <= if cx.thorough { 4000 } else { 700 };
    for k in 0..ops {
        if !all && k > 100 && k + 100 < ops && !r.one_in(ops / 400 + 1) {
            continue;
        }
        let kind = *r.pick(&KINDS);
        let how = match r.below(5) {
            0 | 1 => How::Once(k),
            2 | 3 => How::From(k),
            _ => How::Zero(k),
        };
        let mut s = Sink::new(how, kind);
        let failed = s.failed.clone();
        let res = save_to(&d, &mut s, rendered);
        if !failed.load(std::sync::atomic::Ordering::SeqCst) {
            // saving needs no further write after this point
            if res.is_err() {
                return Err(format!("{how:?}: saving failed without the sink failing: {res:?}"));
            }
            continue;
        }
        cx.obs.one(match how {
            How::Once(_) => "failures that pass",
            How::From(_) => "failures that stay",
            _ => "sinks that take no more",
        });
        cx.obs.hit(mix(seed ^ mix(k)));
        if res.is_ok() {
            return Err(format!(
                "the sink failed ({how:?} of {ops} operations, {kind:?}), saving reported success; {} of {} bytes arrived",
                s.inner.get_ref().len(),
                bytes.len()
            ));
        }
    }
    if all {
        cx.obs.one("documents with every point tried");
    }
    // buffered, so that errors come late
    for _ in 0..40 {
        let k = r.below(bytes.len() as u64 / 512 + 3);
        let mut s = Sink::new(if r.flip() { How::From(k) } else { How::Once(k) }, *r.pick(&KINDS));
        let failed = s.failed.clone();
        let cap = *r.pick(&[512, 4096, 8192, 1 << 20]);
        let w = io::BufWriter::with_capacity(cap, &mut s);
        let res = if rendered { d.clone().build().pack(w) } else { d.clone().pack(w) };
        if failed.load(std::sync::atomic::Ordering::SeqCst) {
            cx.obs.one("failures behind a buffer");
            if res.is_ok() {
                return Err(format!("the sink behind a buffer of {cap} failed at {k}, saving reported success"));
            }
        } else if res.is_err() {
            return Err(format!("saving failed without the sink failing: {res:?}"));
        }
    }
    // sinks that are slow but sound
    for i in 0..4 {
        let mut s = Sink::new(How::Never, io::ErrorKind::Other);
        if i & 1 == 0 {
            s.short = Some(r.fork());
        }
        if i > 0 {
            s.interrupt = Some(r.fork());
        }
        save_to(&d, &mut s, rendered).map_err(|e| format!("short or interrupted writes make saving fail: {e}"))?;
        cx.obs.one("short or interrupted sinks");
        if s.inner.get_ref() != &bytes {
            return Err(format!(
                "short or interrupted writes change the file: {} bytes against {}",
                s.inner.get_ref().len(),
                bytes.len()
            ));
        }
    }
    // a full device
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
        let res = if rendered { d.clone().build().pack(f) } else { d.clone().pack(f) };
        cx.obs.one("saves to a full device");
        if res.is_ok() {
            return Err("saving to a full device reported success".into());
        }
    }
    cx.obs.sample(|| json!({"case": seed.to_string(), "operations": ops, "bytes": bytes.len()}));
    Ok(())
}

/// Two pictures in one document.
fn probe_drawing_ids(cx: &mut Ctx) -> Out {
    let png = crate::gen::png(7, 2, 2);
    let pic = || Paragraph::new().add_run(Run::new().add_image(Pic::new(&png)));
    let p = cmp::open(&pack(Docx::new().add_paragraph(pic()).add_paragraph(pic()), false)?)?;
    let x = p.xml(&p.main_part()?)?;
    let mut ids = vec![];
    x.walk(|e| {
        if e.name == "wp:docPr" {
            ids.push(e.attr("id").unwrap_or("").to_string());
        }
    });
    if ids.len() != 2 {
        return Err(format!("{} drawings are written", ids.len()));
    }
    cx.obs.add("drawing ids", 2);
    if ids[0] == ids[1] {
        return Err("two drawings of a document have the same id".into());
    }
    Ok(())
}

pub const ALL: &[Check] = &[
    Check {
        id: "C08",
        rule: "a saved package whose ids were all listed, by its content with counted ids renamed",
        assumptions: &["ids the caller chose are distinct", "drawing ids are left to a fixed case"],
        level: "exploration",
        cases: 5000,
        deep: 18,
        threads: 8,
        floor: 300,
        case: c08,
        probes: &[("drawing-ids", probe_drawing_ids)],
    },
    Check {
        id: "C17",
        rule: "a document saved along several paths or in two processes, by its content with counted ids renamed",
        assumptions: &["ids drawn from counters are renamed by the order they occur in, unless two fresh processes are compared"],
        level: "exploration",
        cases: 800,
        deep: 40,
        threads: 8,
        floor: 150,
        case: c17,
        probes: &[],
    },
    Check {
        id: "C18",
        rule: "a document and a point at which the sink failed",
        assumptions: &[],
        level: "fault_enumeration",
        cases: 150,
        deep: 16,
        threads: 8,
        floor: 600,
        case: c18,
        probes: &[],
    },
];
