//! Checks on reading: other spellings, flat packages, reading and saving again and again.

use crate::check::*;
use crate::checks::{self, pack, PLAIN};
use crate::cmp;
use crate::gen::*;
use crate::pkg::{self, Package};
use crate::spell::{self, Way, WAYS};
use crate::util::{hash, mix, Rng};
use crate::view::{self, View};
use docx_rs::*;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};

/// What the reader reports.
pub fn report(b: &[u8]) -> Result<Value, String> {
    let d = read_docx(b).map_err(|e| format!("cannot be read: {e}"))?;
    json_of(&d)
}

pub fn json_of(d: &Docx) -> Result<Value, String> {
    serde_json::from_str(&d.json()).map_err(|e| format!("the JSON view is not JSON: {e}"))
}

/// Makes two reports comparable: names in `back` get their old names, ids in `fresh` places that do not
/// come from the file are numbered, and lists without an order are sorted.
pub fn settle(v: &mut Value, back: &HashMap<&str, &str>, own: &dyn Fn(&str) -> bool) {
    match v {
        Value::String(s) => {
            if let Some(o) = back.get(s.as_str()) {
                *s = o.to_string();
            }
        }
        Value::Array(a) => {
            for x in a {
                settle(x, back, own);
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if k == "images" || k == "hyperlinks" {
                    if let Value::Array(a) = x {
                        a.iter_mut().for_each(|y| settle(y, back, own));
                        a.sort_by_key(|y| y.to_string());
                        continue;
                    }
                }
                if k == "id" {
                    if let Value::String(s) = x {
                        if s.len() == 8 && s.bytes().all(|b| b.is_ascii_hexdigit()) && !own(s) {
                            *s = "drawn".into();
                            continue;
                        }
                    }
                }
                settle(x, back, own);
            }
        }
        _ => {}
    }
}

pub fn no_back() -> HashMap<&'static str, &'static str> {
    HashMap::new()
}

/// All paragraph ids in a package.
pub fn para_ids(p: &Package) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for (n, b) in &p.parts {
        if n.ends_with(".xml") {
            let t = String::from_utf8_lossy(b);
            let mut r: &str = &t;
            while let Some(i) = r.find("paraId") {
                r = &r[i + 6..];
                let v: String =
                    r.trim_start().trim_start_matches('=').trim_start().trim_start_matches(['"', '\'']).chars().take(8).collect();
                s.insert(v);
            }
        }
    }
    s
}

/// Takes the numbers of this thread to where none of the next ones is in `own`: paragraphs without an id
/// get one when they are read, which is told from those of the file by not being among them.
pub fn away(own: &BTreeSet<String>) {
    let own: BTreeSet<u32> = own.iter().filter_map(|x| u32::from_str_radix(x, 16).ok()).collect();
    let mut next = u32::from_str_radix(&Paragraph::new().id, 16).unwrap_or(0);
    while let Some(x) = own.range(next..next.saturating_add(20_000)).next() {
        while next < *x {
            next = u32::from_str_radix(&Paragraph::new().id, 16).unwrap_or(u32::MAX);
        }
        next = u32::from_str_radix(&Paragraph::new().id, 16).unwrap_or(u32::MAX);
    }
}

/// Where two reports differ first.
pub fn differ(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => {
                        if let Some(d) = differ(v, w, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                    None => return Some(format!("{at}.{k} is missing: {} became {}", view::cut(&a.to_string()), view::cut(&b.to_string()))),
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{at}.{k} is new"))
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if let Some(d) = differ(v, w, &format!("{at}[{i}]")) {
                    return Some(d);
                }
            }
            if x.len() != y.len() {
                return Some(format!("{at} has {} items instead of {}", y.len(), x.len()));
            }
            None
        }
        _ if a == b => None,
        _ => Some(format!("{at}: {} became {}", view::cut(&a.to_string()), view::cut(&b.to_string()))),
    }
}

pub fn fixtures() -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut v = vec![];
    let top = std::fs::read_dir("/repo/fixtures").map_err(|e| format!("fixtures: {e}"))?;
    let mut dirs: Vec<_> = top.flatten().map(|d| d.path()).filter(|p| p.is_dir()).collect();
    dirs.sort();
    for d in dirs {
        let mut f: Vec<_> = std::fs::read_dir(&d).map_err(|e| e.to_string())?.flatten().map(|f| f.path()).collect();
        f.sort();
        for p in f {
            if p.extension().map(|e| e == "docx").unwrap_or(false) {
                let n = p.strip_prefix("/repo/fixtures").unwrap().display().to_string();
                v.push((n, std::fs::read(&p).map_err(|e| e.to_string())?));
            }
        }
    }
    Ok(v)
}

thread_local! {
    static FILES: std::cell::OnceCell<Vec<(String, Vec<u8>, Package)>> = const { std::cell::OnceCell::new() };
}

/// A package to work on: mostly a generated document, sometimes a file of another program.
pub fn subject(seed: u64, r: &mut Rng, cfg: Cfg, files: u64) -> Result<(String, Package), String> {
    if r.below(100) < files {
        let got = FILES.with(|f| {
            let all = f.get_or_init(|| {
                fixtures()
                    .unwrap_or_default()
                    .into_iter()
                    .filter_map(|(n, b)| pkg::load(&b).ok().map(|p| (n, b, p)))
                    .collect()
            });
            if all.is_empty() {
                return None;
            }
            let x = r.pick(all);
            Some((x.0.clone(), x.2.clone()))
        });
        if let Some(x) = got {
            return Ok(x);
        }
    }
    let b = checks::build(seed, checks::size(cfg, seed))?;
    Ok(("generated".into(), b.pkg))
}

/// Adds what only other programs write to every third generated package.
pub fn grafted(name: &str, p: &mut Package, r: &mut Rng, cx: &mut Ctx) -> Out {
    if name == "generated" && r.one_in(3) {
        for x in crate::graft::graft(p, r)? {
            cx.obs.one(x);
        }
    }
    Ok(())
}

fn ways(r: &mut Rng) -> BTreeSet<Way> {
    match r.below(4) {
        0 | 1 => [*r.pick(WAYS)].into(),
        2 => WAYS.iter().copied().filter(|_| r.one_in(4)).collect(),
        _ => WAYS.iter().copied().collect(),
    }
}

fn c07(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed);
    let (name, mut p) = subject(seed, &mut r, Cfg::full().readable(), 30)?;
    grafted(&name, &mut p, &mut r, cx)?;
    let ws = ways(&mut r);
    let s = spell::respell(&p, &mut r, ws.clone());
    let a = pkg::zip(&p, None);
    let b = if ws.contains(&Way::Zip) { pkg::zip(&s.pkg, Some(&mut r)) } else { pkg::zip(&s.pkg, None) };
    let own = para_ids(&p);
    let mine = |x: &str| own.contains(x);
    away(&own);
    let ra = report(&a);
    away(&own);
    let rb = report(&b);
    let (mut ja, mut jb) = match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            cx.obs.one("packages refused in both spellings");
            return Ok(());
        }
        (Ok(_), Err(e)) => return Err(format!("{name} respelled by {ws:?} {e}")),
        (Err(e), Ok(_)) => return Err(format!("{name} {e}, but respelled by {ws:?} it can")),
    };
    let back: HashMap<&str, &str> = s.back.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    settle(&mut ja, &no_back(), &mine);
    settle(&mut jb, &back, &mine);
    if let Some(d) = differ(&ja, &jb, "") {
        return Err(format!("{name} respelled by {ws:?} is read differently: {d}"));
    }
    for (k, n) in &s.used {
        cx.obs.add(k, *n);
    }
    cx.obs.one(if name == "generated" { "generated documents" } else { "files of other programs" });
    if !s.used.is_empty() {
        cx.obs.hit(mix(hash(&a) ^ hash(&b)));
        let used = s.used.clone();
        cx.obs.sample(|| json!({"case": seed.to_string(), "document": name, "respelled": used}));
    }
    Ok(())
}

pub const C07: Check = Check {
    id: "C07",
    rule: "a package and a respelling of it with at least one change, both read and their JSON reports compared",
    assumptions: &[],
    level: "exploration",
    cases: 3000,
    deep: 20,
    threads: 8,
    floor: 200,
    case: c07,
    probes: &[],
};

/// The package as one flat XML file.
pub fn flat(p: &Package, r: &mut Rng) -> String {
    flat_as(p, p.content_types(), r)
}

pub fn flat_as(p: &Package, types: impl Fn(&str) -> String, r: &mut Rng) -> String {
    let mut names: Vec<&String> = p.order.iter().filter(|n| *n != "[Content_Types].xml").collect();
    if r.flip() {
        r.shuffle(&mut names);
    }
    let style = r.below(4);
    let mut s = String::new();
    s.push_str(*r.pick(&["<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\r\n<?mso-application progid=\"Word.Document\"?>\r\n", "<?xml version='1.0'?>", ""]));
    s.push_str("<pkg:package xmlns:pkg=\"http://schemas.microsoft.com/office/2006/xmlPackage\">");
    for n in names {
        let b = &p.parts[n];
        let ct = types(n);
        let mut attrs = vec![("pkg:name", format!("/{n}")), ("pkg:contentType", ct)];
        let xml = attrs[1].1.ends_with("xml") && std::str::from_utf8(b).is_ok();
        if !xml && r.flip() {
            attrs.push(("pkg:compression", "store".into()));
        }
        if r.one_in(3) {
            attrs.push(("pkg:padding", "512".into()));
        }
        if r.flip() {
            r.shuffle(&mut attrs);
        }
        s.push_str(*r.pick(&["", "\n", "\r\n  "]));
        s.push_str("<pkg:part");
        for (k, v) in &attrs {
            let q = match style {
                0 => '\'',
                1 => {
                    if r.flip() {
                        '"'
                    } else {
                        '\''
                    }
                }
                _ => '"',
            };
            let sp = if style == 3 { *r.pick(&[" ", "\n    ", "  ", "\t"]) } else { " " };
            s.push_str(&format!("{sp}{k}={q}{v}{q}"));
        }
        if style == 3 && r.flip() {
            s.push(' ');
        }
        s.push('>');
        s.push_str(*r.pick(&["", "\n"]));
        if xml {
            let t = std::str::from_utf8(b).unwrap();
            let t = t.trim_start_matches('\u{feff}');
            let t = if t.starts_with("<?xml") { &t[t.find("?>").map_or(0, |i| i + 2)..] } else { t };
            s.push_str(&format!("<pkg:xmlData>{t}</pkg:xmlData>"));
        } else {
            use base64::Engine;
            let e = base64::engine::general_purpose::STANDARD.encode(b);
            s.push_str("<pkg:binaryData>");
            if r.flip() {
                for c in e.as_bytes().chunks(76) {
                    s.push_str(std::str::from_utf8(c).unwrap());
                    s.push_str(*r.pick(&["\r\n", "\n", " "]));
                }
            } else {
                s.push_str(&e);
            }
            s.push_str("</pkg:binaryData>");
        }
        s.push_str("</pkg:part>");
    }
    s.push_str("</pkg:package>");
    s
}

/// Image paths of flat packages are relative to the main part.
fn shorten(v: &mut Value) {
    if let Some(a) = v.get_mut("images").and_then(|x| x.as_array_mut()) {
        for i in a {
            if let Some(Value::String(s)) = i.get_mut(1) {
                if let Some(t) = s.strip_prefix("word/") {
                    *s = t.into();
                }
            }
        }
    }
}

fn c20(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed);
    let (name, mut p) = subject(seed, &mut r, Cfg::full().readable(), 25)?;
    grafted(&name, &mut p, &mut r, cx)?;
    if r.flip() {
        let ws = [Way::Order, Way::Quotes, Way::TagSpace, Way::Indent, Way::Ids, Way::Names, Way::Absolute, Way::Empty, Way::Refs]
            .into_iter()
            .filter(|_| r.flip())
            .collect();
        p = spell::respell(&p, &mut r, ws).pkg;
    }
    // the flat reader also takes numberings nothing is related to
    if let Ok(m) = p.main_part() {
        if p.related(&m, "numbering")?.is_none() && p.parts.remove("word/numbering.xml").is_some() {
            p.order.retain(|n| n != "word/numbering.xml");
        }
    }
    let f = flat(&p, &mut r);
    let own = para_ids(&p);
    let mine = |x: &str| own.contains(x);
    away(&own);
    let a = report(&pkg::zip(&p, None));
    away(&own);
    let b = read_xml(&f).map_err(|e| format!("cannot be read: {e}")).and_then(|d| json_of(&d));
    let (mut ja, mut jb) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            cx.obs.one("packages refused in both forms");
            return Ok(());
        }
        (Ok(_), Err(e)) => return Err(format!("{name} as a flat package {e}")),
        (Err(e), Ok(_)) => return Err(format!("{name} {e}, but as a flat package it can")),
    };
    shorten(&mut ja);
    shorten(&mut jb);
    settle(&mut ja, &no_back(), &mine);
    settle(&mut jb, &no_back(), &mine);
    if let Some(d) = differ(&ja, &jb, "") {
        return Err(format!("{name} is read differently as a flat package: {d}"));
    }
    cx.obs.add("parts", p.parts.len() as u64);
    cx.obs.add("flat bytes", f.len() as u64);
    cx.obs.add("images", ja.get("images").and_then(|i| i.as_array()).map(|a| a.len()).unwrap_or(0) as u64);
    cx.obs.one(if name == "generated" { "generated documents" } else { "files of other programs" });
    cx.obs.hit(hash(f.as_bytes()));
    cx.obs.sample(|| json!({"case": seed.to_string(), "document": name, "flat package starts": view::cut(&f)}));
    Ok(())
}

pub const C20: Check = Check {
    id: "C20",
    rule: "a package read in its zip form and as a flat XML file of the same parts, JSON reports compared",
    assumptions: &[
        "image paths are compared relative to the main part, the way each reader names them",
        "a numbering part that nothing is related to is left out of both forms: only the flat reader looks for it",
    ],
    level: "exploration",
    cases: 3000,
    deep: 20,
    threads: 8,
    floor: 200,
    case: c20,
    probes: &[],
};

/// Takes out the runs around the end of a comment that come with every generation (a known finding).
fn prune(v: &mut Value) {
    fn kind(v: &Value, t: &str) -> bool {
        v.get("type").and_then(|t| t.as_str()) == Some(t)
    }
    fn blank(v: &Value) -> bool {
        kind(v, "run")
            && v["data"]["children"].as_array().map(|a| a.is_empty()).unwrap_or(false)
            && v["data"]["runProperty"].as_object().map(|a| a.is_empty()).unwrap_or(false)
    }
    match v {
        Value::Array(a) => {
            a.iter_mut().for_each(prune);
            if !a.iter().any(|x| kind(x, "commentRangeEnd")) {
                return;
            }
            let mut near = vec![false; a.len()];
            for i in 0..a.len() {
                near[i] = i > 0 && (near[i - 1] && blank(&a[i - 1]) || kind(&a[i - 1], "commentRangeEnd"));
            }
            for i in (0..a.len()).rev() {
                if i + 1 < a.len() && (near[i + 1] && blank(&a[i + 1]) || kind(&a[i + 1], "commentRangeEnd")) {
                    near[i] = true;
                }
            }
            let mut i = 0;
            a.retain(|x| {
                i += 1;
                !(near[i - 1] && blank(x))
            });
        }
        Value::Object(o) => o.values_mut().for_each(prune),
        _ => {}
    }
}

/// Puts what relationship ids lead to in their place, and takes an indent that is not given for none.
fn resolve(v: &mut Value, images: &HashMap<String, String>, links: &HashMap<String, String>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| resolve(x, images, links)),
        Value::Object(o) => {
            if o.contains_key("positionType") {
                if let Some(Value::String(s)) = o.get_mut("id") {
                    if let Some(i) = images.get(s) {
                        *s = i.clone();
                    }
                }
            }
            if let Some(Value::String(s)) = o.get_mut("rid") {
                if let Some(i) = links.get(s) {
                    *s = i.clone();
                }
            }
            if let Some(Value::Object(i)) = o.get_mut("indent") {
                for k in ["start", "end"] {
                    if i.get(k).map(|x| x.is_null()).unwrap_or(false) {
                        i.insert(k.into(), 0.into());
                    }
                }
            }
            o.remove("divId");
            if o.contains_key("rowHeight") && !o.contains_key("heightRule") {
                o.insert("heightRule".into(), "atLeast".into());
            }
            for (k, x) in o.iter_mut() {
                if k.ends_with("Reference") && x.get("id").is_some() {
                    x["id"] = "".into();
                }
            }
            if o.get("history").map(|h| h.is_null()).unwrap_or(false) {
                o.insert("history".into(), 1.into());
            }
            for k in ["header", "firstHeader", "evenHeader", "footer", "firstFooter", "evenFooter"] {
                if let Some(Value::Array(a)) = o.get_mut(k) {
                    if a.len() == 2 && a[0].is_string() {
                        a[0] = "".into();
                    }
                }
            }
            o.values_mut().for_each(|x| resolve(x, images, links));
        }
        _ => {}
    }
}

/// True if pictures of different parts have the same id.
fn by_target(v: &mut Value) -> bool {
    let mut images = HashMap::new();
    let mut links = HashMap::new();
    let mut shared = false;
    for i in v["images"].as_array().cloned().unwrap_or_default() {
        let is = format!("image {:x}", hash(i[2].to_string().as_bytes()));
        let was = images.insert(i[0].as_str().unwrap_or("").to_string(), is.clone());
        shared |= was.is_some_and(|was| was != is);
    }
    for i in v["hyperlinks"].as_array().cloned().unwrap_or_default() {
        links.insert(i[0].as_str().unwrap_or("").to_string(), format!("link {} {}", i[1], i[2]));
    }
    resolve(v, &images, &links);
    let set: BTreeSet<String> = images.into_values().collect();
    v["images"] = json!(set);
    // those in use are in their places now
    v["hyperlinks"] = json!([]);
    // one entry for each paragraph is written; what they say about replies is in the comments, too
    let done: BTreeSet<String> = v["commentsExtended"]["children"]
        .as_array()
        .map(|a| a.iter().filter(|x| x["done"] == true).map(|x| x["paragraphId"].to_string()).collect())
        .unwrap_or_default();
    v["commentsExtended"] = json!(done);
    // not written (known findings)
    v["themes"] = json!([]);
    v["webSettings"] = json!([]);
    shared
}

/// Leaves open which picture is which.
fn any_picture(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(any_picture),
        Value::Object(o) => {
            if o.contains_key("positionType") && o.contains_key("id") {
                o.insert("id".into(), "image".into());
            }
            o.remove("images");
            o.values_mut().for_each(any_picture);
        }
        _ => {}
    }
}

/// A style named Normal is written unless there is one.
fn normal(v: &mut Value, first: &Value) {
    if let (Some(f), Some(a)) = (first["styles"]["styles"].as_array(), v["styles"]["styles"].as_array_mut()) {
        if !f.iter().any(|s| s["styleId"] == "Normal") {
            a.retain(|s| s["styleId"] != "Normal");
        }
    }
}

/// Numberings are written for those that use them, with the default one next to them.
fn numberings(v: &mut Value, first: &Value) {
    fn used(v: &Value) -> bool {
        match v {
            Value::Array(a) => a.iter().any(used),
            Value::Object(o) => o.iter().any(|(k, x)| k == "numberingProperty" && !x.is_null() || used(x)),
            _ => false,
        }
    }
    if !used(&first["document"]) && !used(&first["styles"]) && !used(&first["comments"]) {
        v["numberings"] = Value::Null;
        return;
    }
    for k in ["abstractNums", "numberings"] {
        let known = first["numberings"][k].as_array().map(|a| a.iter().any(|x| x["id"] == 1)).unwrap_or(true);
        if let Some(a) = v["numberings"][k].as_array_mut() {
            if !known {
                a.retain(|x| x["id"] != 1);
            }
            a.sort_by_key(|x| x["id"].as_u64());
        }
    }
}

/// Reads and saves again.
fn generation(b: &[u8]) -> Result<(Value, Vec<u8>), String> {
    let d = read_docx(b).map_err(|e| format!("cannot be read: {e}"))?;
    let j = json_of(&d)?;
    Ok((j, pack(d, true)?))
}

/// Text boxes and shapes cannot be written (known findings).
const UNWRITABLE: &[&str] = &["image_in_textbox/image_in_textbox.docx", "shape/shape.docx", "textbox/textbox.docx"];

fn file(name: &str) -> Result<Vec<u8>, String> {
    std::fs::read(format!("/repo/fixtures/{name}")).map_err(|e| format!("{name}: {e}"))
}

/// Saving what was read from a file; panics are told without their place in the code.
fn resave(b: &[u8]) -> Result<Package, String> {
    match guard(|| generation(b)) {
        Ok(r) => cmp::open(&r?.1),
        Err(Caught::Library(e)) => Err(format!("saving panics: {}", e.split_once(": ").map(|x| x.1).unwrap_or(&e))),
        Err(Caught::Harness(e)) => panic!("{e}"),
    }
}

fn text_of(p: &Package, part: &str) -> String {
    String::from_utf8_lossy(p.parts.get(part).map(|b| &b[..]).unwrap_or(b"")).into_owned()
}

fn probe_textbox(_: &mut Ctx) -> Out {
    resave(&file("textbox/textbox.docx")?).map(|_| ())
}
fn probe_image_in_textbox(_: &mut Ctx) -> Out {
    resave(&file("image_in_textbox/image_in_textbox.docx")?).map(|_| ())
}
fn probe_shape(_: &mut Ctx) -> Out {
    resave(&file("shape/shape.docx")?).map(|_| ())
}
fn probe_theme(_: &mut Ctx) -> Out {
    let p = resave(&file("font/font.docx")?)?;
    if p.parts.keys().any(|n| n.contains("theme")) {
        return Ok(());
    }
    Err("the theme that was read is not written".into())
}
fn probe_divs(_: &mut Ctx) -> Out {
    let p = resave(&file("div/div.docx")?)?;
    if text_of(&p, "word/document.xml").contains("divId") {
        return Ok(());
    }
    Err("divId is read but not written".into())
}
fn probe_footnotes(_: &mut Ctx) -> Out {
    let d = Docx::new().add_paragraph(Paragraph::new().add_run(
        Run::new().add_footnote_reference(Footnote::new().add_content(Paragraph::new().add_run(Run::new().add_text("NOTE TEXT")))),
    ));
    let p = resave(&pack(d, true)?)?;
    if p.parts.keys().any(|n| text_of(&p, n).contains("NOTE TEXT")) {
        return Ok(());
    }
    Err("the text of a footnote is gone after reading and saving".into())
}
fn probe_comment_end(_: &mut Ctx) -> Out {
    let d = Docx::new().add_paragraph(
        Paragraph::new()
            .add_comment_start(Comment::new(1).add_paragraph(Paragraph::new()))
            .add_run(Run::new().add_text("x"))
            .add_comment_end(1),
    );
    let one = pack(d, true)?;
    let p = resave(&one)?;
    let (a, b) = (cmp::open(&one)?, p);
    let n = |p: &Package| text_of(p, "word/document.xml").matches("<w:r>").count();
    if n(&a) == n(&b) {
        return Ok(());
    }
    Err(format!("a paragraph of {} runs has {} after reading and saving", n(&a), n(&b)))
}
fn probe_inline_control(_: &mut Ctx) -> Out {
    let d = Docx::new().add_paragraph(
        Paragraph::new().add_structured_data_tag(StructuredDataTag::new().alias("ALIAS").add_run(Run::new().add_text("x"))),
    );
    let p = resave(&pack(d, true)?)?;
    if text_of(&p, "word/document.xml").contains("ALIAS") {
        return Ok(());
    }
    Err("a content control in a paragraph is gone after reading and saving".into())
}

fn probe_unanchored_comment(_: &mut Ctx) -> Out {
    let marked = |id: usize| {
        Paragraph::new()
            .add_comment_start(Comment::new(id).add_paragraph(Paragraph::new().add_run(Run::new().add_text(format!("COMMENT{id}")))))
            .add_run(Run::new().add_text("x"))
            .add_comment_end(id)
    };
    let mut p = cmp::open(&pack(Docx::new().add_paragraph(marked(1)).add_paragraph(marked(2)), true)?)?;
    let main = p.main_part()?;
    let x = text_of(&p, &main).replace("<w:commentRangeStart w:id=\"2\" />", "").replace("<w:commentRangeEnd w:id=\"2\" />", "");
    p.parts.insert(main, x.into_bytes());
    let again = resave(&crate::pkg::zip(&p, None))?;
    if again.parts.keys().any(|n| text_of(&again, n).contains("COMMENT2")) {
        return Ok(());
    }
    Err("a comment without a range is gone after reading and saving".into())
}

fn c05(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed);
    let n = if r.one_in(6) { 6 } else { 3 };
    let (name, mut p, want) = if r.pct(20) {
        let (name, p) = subject(seed, &mut r, Cfg::full().readable(), 100)?;
        if UNWRITABLE.contains(&name.as_str()) {
            cx.obs.one("files with text boxes or shapes left out");
            return Ok(());
        }
        (name, p, None)
    } else {
        let b = checks::build(seed, checks::size(Cfg::full().readable(), seed))?;
        ("generated".to_string(), b.pkg, Some(cmp::as_read(&b.want)))
    };
    let mut want = want;
    if name == "generated" && r.one_in(3) {
        for _ in 0..1 + r.us(2) {
            if crate::graft::controls(&mut p, &mut r)? {
                // what was generated is compared without them
                want = None;
                cx.obs.one("content controls around blocks");
            }
        }
    }
    let mut clash = false;
    if r.flip() {
        let mut ws = ways(&mut r);
        clash = r.flip();
        if clash {
            ws.remove(&Way::Ids);
            ws.insert(Way::Clash);
        }
        let s = spell::respell(&p, &mut r, ws);
        for (k, n) in s.used {
            cx.obs.add(k, n);
        }
        p = s.pkg;
    }
    let h = again(&name, &p, n, want.as_ref(), clash, cx)?;
    cx.obs.one(if name == "generated" { "generated documents" } else { "files of other programs" });
    cx.obs.hit(h);
    cx.obs.sample(|| json!({"case": seed.to_string(), "document": name, "generations": n}));
    Ok(())
}

/// `n` generations of a document say the same, and what is wanted.
fn again(name: &str, p: &Package, n: u64, want: Option<&View>, clash: bool, cx: &mut Ctx) -> Result<u64, String> {
    let mut b = pkg::zip(p, None);
    let own = para_ids(p);
    let mine = |x: &str| own.contains(x);
    let mut last: Option<Value> = None;
    let mut start: Option<Value> = None;
    let mut first = None;
    let mut shared = false;
    for g in 0..n {
        away(&own);
        let (mut j, next) = generation(&b).map_err(|e| format!("{name}, generation {g}: {e}"))?;
        settle(&mut j, &no_back(), &mine);
        prune(&mut j);
        // the report does not tell relationship ids of different parts apart
        if !clash || g > 0 {
            shared |= by_target(&mut j);
        }
        let top = start.get_or_insert_with(|| j.clone());
        numberings(&mut j, top);
        normal(&mut j, top);
        if let Some(l) = last.as_ref().filter(|_| !clash || g > 1) {
            let d = if shared {
                let (mut l, mut j) = (l.clone(), j.clone());
                any_picture(&mut l);
                any_picture(&mut j);
                differ(&l, &j, "")
            } else {
                differ(l, &j, "")
            };
            if let Some(d) = d {
                return Err(format!("{name}, generation {g} is read differently: {d}"));
            }
        }
        last = Some(j);
        let v = view::view(&cmp::open(&next)?, PLAIN)?;
        match &first {
            None => {
                if let Some(w) = want {
                    cmp::compare(w, &v, cmp::READ, true).map_err(|e| format!("{name}, saved again: {e}"))?;
                    cx.obs.add("elements compared", w.body.count() as u64);
                }
                first = Some(v)
            }
            Some(f) => {
                for (x, y) in f.parts().iter().zip(v.parts()) {
                    if let Some(d) = view::diff(x, y) {
                        return Err(format!("{name}, generation {} is saved differently: {d}", g + 1));
                    }
                }
            }
        }
        b = next;
        cx.obs.one("generations");
    }
    Ok(hash(last.unwrap().to_string().as_bytes()))
}

pub const C05: Check = Check {
    id: "C05",
    rule: "a document read and saved again at least three times, every report and every package compared with the first",
    assumptions: &[],
    level: "exploration",
    cases: 2000,
    deep: 20,
    threads: 8,
    floor: 150,
    case: c05,
    probes: &[
        ("textbox", probe_textbox),
        ("image-in-textbox", probe_image_in_textbox),
        ("shape", probe_shape),
        ("theme", probe_theme),
        ("divs", probe_divs),
        ("footnotes", probe_footnotes),
        ("comment-end", probe_comment_end),
        ("inline-control", probe_inline_control),
        ("unanchored-comment", probe_unanchored_comment),
    ],
};

pub const ALL: &[Check] = &[C05, C07, C20];
