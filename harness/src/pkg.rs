//! Observers of saved packages: a zip reader of our own (the zip crate hides duplicate names) and
//! the package-closure checker.

use crate::xml::{self, El};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

#[derive(Clone, Default, Debug)]
pub struct Package {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub order: Vec<String>,
}

fn u16le(b: &[u8], i: usize) -> Option<usize> {
    Some(u16::from_le_bytes(b.get(i..i + 2)?.try_into().ok()?) as usize)
}
fn u32le(b: &[u8], i: usize) -> Option<usize> {
    Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?) as usize)
}

/// Strict zip reading. Every deviation is an error; directory entries are dropped.
pub fn unzip(b: &[u8]) -> Result<Package, String> {
    let eocd = (0..=b.len().saturating_sub(22))
        .rev()
        .find(|&i| b[i..].starts_with(b"PK\x05\x06"))
        .ok_or("no end of central directory")?;
    let n = u16le(b, eocd + 10).ok_or("short eocd")?;
    let size = u32le(b, eocd + 12).ok_or("short eocd")?;
    let mut at = u32le(b, eocd + 16).ok_or("short eocd")?;
    if at + size != eocd {
        return Err(format!("central directory at {at}+{size} does not end at {eocd}"));
    }
    let mut p = Package::default();
    let mut seen = BTreeSet::new();
    for _ in 0..n {
        let bad = || "central directory entry damaged".to_string();
        if !b.get(at..).ok_or_else(bad)?.starts_with(b"PK\x01\x02") {
            return Err(bad());
        }
        let method = u16le(b, at + 10).ok_or_else(bad)?;
        let crc = u32le(b, at + 16).ok_or_else(bad)?;
        let csize = u32le(b, at + 20).ok_or_else(bad)?;
        let usize_ = u32le(b, at + 24).ok_or_else(bad)?;
        let nlen = u16le(b, at + 28).ok_or_else(bad)?;
        let xlen = u16le(b, at + 30).ok_or_else(bad)?;
        let clen = u16le(b, at + 32).ok_or_else(bad)?;
        let off = u32le(b, at + 42).ok_or_else(bad)?;
        let name = std::str::from_utf8(b.get(at + 46..at + 46 + nlen).ok_or_else(bad)?)
            .map_err(|_| "entry name is not UTF-8")?
            .to_string();
        at += 46 + nlen + xlen + clen;
        if !b.get(off..).ok_or_else(bad)?.starts_with(b"PK\x03\x04") {
            return Err(format!("{name}: no local header"));
        }
        let lnlen = u16le(b, off + 26).ok_or_else(bad)?;
        let lxlen = u16le(b, off + 28).ok_or_else(bad)?;
        if b.get(off + 30..off + 30 + lnlen) != Some(name.as_bytes()) {
            return Err(format!("{name}: local header names another entry"));
        }
        let start = off + 30 + lnlen + lxlen;
        let data = b.get(start..start + csize).ok_or_else(bad)?;
        let out = match method {
            0 => data.to_vec(),
            8 => {
                let mut v = vec![];
                flate2::read::DeflateDecoder::new(data)
                    .read_to_end(&mut v)
                    .map_err(|e| format!("{name}: {e}"))?;
                v
            }
            m => return Err(format!("{name}: compression method {m}")),
        };
        if out.len() != usize_ {
            return Err(format!("{name}: {} bytes, directory says {usize_}", out.len()));
        }
        if crc32fast::hash(&out) as usize != crc {
            return Err(format!("{name}: checksum"));
        }
        if !seen.insert(name.to_ascii_lowercase()) {
            return Err(format!("{name}: two entries of this name"));
        }
        if name.ends_with('/') {
            continue;
        }
        p.order.push(name.clone());
        p.parts.insert(name, out);
    }
    if at != eocd {
        return Err("central directory has extra data".into());
    }
    Ok(p)
}

/// What the central directory says about each entry, directories included, apart from sizes and sums.
pub fn headers(b: &[u8]) -> Vec<(String, Vec<usize>)> {
    let mut out = vec![];
    let Some(eocd) = (0..=b.len().saturating_sub(22)).rev().find(|&i| b[i..].starts_with(b"PK\x05\x06")) else {
        return out;
    };
    let mut at = u32le(b, eocd + 16).unwrap_or(0);
    while b.get(at..).is_some_and(|x| x.starts_with(b"PK\x01\x02")) {
        let g = |o| u16le(b, at + o).unwrap_or(0);
        let nlen = g(28);
        let name = String::from_utf8_lossy(b.get(at + 46..at + 46 + nlen).unwrap_or(&[])).into_owned();
        // versions, flags, method, time, date, attributes
        out.push((name, vec![g(4), g(6), g(8), g(10), g(12), g(14), g(30), g(32), g(36), u32le(b, at + 38).unwrap_or(0)]));
        at += 46 + nlen + g(30) + g(32);
    }
    out
}

/// How to store entries when writing a package of our own.
pub fn zip(p: &Package, r: Option<&mut crate::util::Rng>) -> Vec<u8> {
    use std::io::Write;
    let mut z = ::zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let mut order = p.order.clone();
    let mut r = r;
    if let Some(r) = r.as_deref_mut() {
        r.shuffle(&mut order);
    }
    for n in &order {
        let stored = r.as_deref_mut().map(|r| r.flip()).unwrap_or(false);
        let o = ::zip::write::SimpleFileOptions::default().compression_method(if stored {
            ::zip::CompressionMethod::Stored
        } else {
            ::zip::CompressionMethod::Deflated
        });
        z.start_file(n.as_str(), o).unwrap();
        z.write_all(&p.parts[n]).unwrap();
    }
    z.finish().unwrap().into_inner()
}

#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
    /// Part name for internal targets.
    pub part: String,
}

pub fn kind(typ: &str) -> &str {
    typ.rsplit('/').next().unwrap_or("")
}

pub fn rels_name(part: &str) -> String {
    match part.rsplit_once('/') {
        Some((d, f)) => format!("{d}/_rels/{f}.rels"),
        None => format!("_rels/{part}.rels"),
    }
}

pub fn resolve(part: &str, target: &str) -> String {
    let mut segs: Vec<&str> = if target.starts_with('/') {
        vec![]
    } else {
        let mut s: Vec<&str> = part.split('/').collect();
        s.pop();
        s
    };
    for t in target.split('/') {
        match t {
            "" | "." => {}
            ".." => {
                segs.pop();
            }
            t => segs.push(t),
        }
    }
    segs.join("/")
}

impl Package {
    pub fn xml(&self, part: &str) -> Result<El, String> {
        let b = self.parts.get(part).ok_or_else(|| format!("{part}: missing"))?;
        xml::parse_bytes(b).map_err(|e| format!("{part}: {e}"))
    }
    pub fn is_xml(name: &str) -> bool {
        name.ends_with(".xml") || name.ends_with(".rels")
    }
    pub fn rels(&self, part: &str) -> Result<Vec<Rel>, String> {
        let name = if part.is_empty() { "_rels/.rels".to_string() } else { rels_name(part) };
        if !self.parts.contains_key(&name) {
            return Ok(vec![]);
        }
        let e = self.xml(&name)?;
        if e.name != "rel:Relationships" {
            return Err(format!("{name}: root is {}", e.name));
        }
        let mut v = vec![];
        for r in e.els() {
            if r.name != "rel:Relationship" {
                return Err(format!("{name}: child {}", r.name));
            }
            let g = |a: &str| r.attr(a).map(str::to_string).ok_or(format!("{name}: relationship without {a}"));
            let target = g("Target")?;
            let external = r.attr("TargetMode") == Some("External");
            v.push(Rel {
                id: g("Id")?,
                typ: g("Type")?,
                part: if external { String::new() } else { resolve(part, &target) },
                target,
                external,
            });
        }
        Ok(v)
    }
    pub fn main_part(&self) -> Result<String, String> {
        let r: Vec<Rel> = self.rels("")?.into_iter().filter(|r| kind(&r.typ) == "officeDocument").collect();
        match r.len() {
            1 => Ok(r[0].part.clone()),
            n => Err(format!("{n} office document relationships")),
        }
    }
    /// The target of the single relationship of that kind, if any.
    pub fn related(&self, part: &str, k: &str) -> Result<Option<String>, String> {
        let v: Vec<Rel> = self.rels(part)?.into_iter().filter(|r| kind(&r.typ) == k).collect();
        match v.len() {
            0 => Ok(None),
            1 => Ok(Some(v[0].part.clone())),
            n => Err(format!("{part}: {n} relationships of kind {k}")),
        }
    }
}

const CT: &str = "application/vnd.openxmlformats-officedocument.wordprocessingml.";

/// What the content type of a target of this relationship kind must be.
fn expected_ct(k: &str) -> Option<Vec<String>> {
    let w = |s: &str| Some(vec![format!("{CT}{s}+xml")]);
    match k {
        "officeDocument" => w("document.main"),
        "styles" | "numbering" | "settings" | "webSettings" | "fontTable" | "comments" | "commentsExtended"
        | "footnotes" | "header" | "footer" => w(k),
        "core-properties" => Some(vec!["application/vnd.openxmlformats-package.core-properties+xml".into()]),
        "extended-properties" => {
            Some(vec!["application/vnd.openxmlformats-officedocument.extended-properties+xml".into()])
        }
        "custom-properties" => Some(vec!["application/vnd.openxmlformats-officedocument.custom-properties+xml".into()]),
        "customXml" => Some(vec!["application/xml".into()]),
        "customXmlProps" => Some(vec!["application/vnd.openxmlformats-officedocument.customXmlProperties+xml".into()]),
        "webextensiontaskpanes" => Some(vec!["application/vnd.ms-office.webextensiontaskpanes+xml".into()]),
        "webextension" => Some(vec!["application/vnd.ms-office.webextension+xml".into()]),
        "image" => None,
        _ => None,
    }
}

const FULL_TYPE: &[(&str, &str)] = &[
    ("commentsExtended", "http://schemas.microsoft.com/office/2011/relationships/commentsExtended"),
    ("core-properties", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties"),
    ("webextensiontaskpanes", "http://schemas.microsoft.com/office/2011/relationships/webextensiontaskpanes"),
    ("webextension", "http://schemas.microsoft.com/office/2011/relationships/webextension"),
];

fn known_type(t: &str) -> bool {
    let k = kind(t);
    match FULL_TYPE.iter().find(|(n, _)| *n == k) {
        Some((_, full)) => t == *full,
        None => t == format!("http://schemas.openxmlformats.org/officeDocument/2006/relationships/{k}"),
    }
}

/// What element root a part of this kind must have.
fn expected_root(k: &str) -> Option<&'static str> {
    Some(match k {
        "officeDocument" => "w:document",
        "styles" => "w:styles",
        "numbering" => "w:numbering",
        "settings" => "w:settings",
        "webSettings" => "w:webSettings",
        "fontTable" => "w:fonts",
        "comments" => "w:comments",
        "commentsExtended" => "w15:commentsEx",
        "footnotes" => "w:footnotes",
        "header" => "w:hdr",
        "footer" => "w:ftr",
        "core-properties" => "cp:coreProperties",
        "extended-properties" => "ap:Properties",
        "custom-properties" => "cup:Properties",
        "customXmlProps" => "ds:datastoreItem",
        "webextensiontaskpanes" => "wetp:taskpanes",
        "webextension" => "we:webextension",
        _ => return None,
    })
}

/// Statistics of one closure check.
#[derive(Default, Clone)]
pub struct Closure {
    pub parts: usize,
    pub rels: usize,
    pub refs: usize,
    pub problems: Vec<String>,
}

pub fn check_closure(p: &Package) -> Closure {
    let mut c = Closure { parts: p.parts.len(), ..Default::default() };
    let mut bad: Vec<String> = vec![];
    // every XML part parses
    let mut trees: BTreeMap<&str, El> = BTreeMap::new();
    for n in p.parts.keys() {
        if Package::is_xml(n) {
            match p.xml(n) {
                Ok(e) => {
                    trees.insert(n, e);
                }
                Err(e) => bad.push(format!("not well-formed: {e}")),
            }
        }
    }
    // content types
    let mut defaults: BTreeMap<String, String> = BTreeMap::new();
    let mut overrides: BTreeMap<String, String> = BTreeMap::new();
    match trees.get("[Content_Types].xml") {
        None => bad.push("no [Content_Types].xml".into()),
        Some(t) => {
            if t.name != "ct:Types" {
                bad.push(format!("[Content_Types].xml root is {}", t.name));
            }
            for e in t.els() {
                let ctype = e.attr("ContentType").unwrap_or("").to_string();
                match e.name.as_str() {
                    "ct:Default" => {
                        let x = e.attr("Extension").unwrap_or("").to_ascii_lowercase();
                        if defaults.insert(x.clone(), ctype).is_some() {
                            bad.push(format!("content type default for {x} twice"));
                        }
                    }
                    "ct:Override" => {
                        let x = e.attr("PartName").unwrap_or("").to_string();
                        if !x.starts_with('/') {
                            bad.push(format!("content type override for {x:?} is not absolute"));
                        }
                        let x = x.trim_start_matches('/').to_string();
                        if !p.parts.contains_key(&x) {
                            bad.push(format!("content type override for missing part {x}"));
                        }
                        if overrides.insert(x.clone(), ctype).is_some() {
                            bad.push(format!("content type override for {x} twice"));
                        }
                    }
                    n => bad.push(format!("[Content_Types].xml contains {n}")),
                }
            }
        }
    }
    let ctype = |n: &str| -> Option<String> {
        overrides.get(n).cloned().or_else(|| {
            let ext = n.rsplit_once('.').map(|x| x.1.to_ascii_lowercase())?;
            defaults.get(&ext).cloned()
        })
    };
    for n in p.parts.keys() {
        if n != "[Content_Types].xml" && ctype(n).is_none() {
            bad.push(format!("{n} has no content type"));
        }
        if n.ends_with(".rels") && ctype(n).as_deref() != Some("application/vnd.openxmlformats-package.relationships+xml") {
            bad.push(format!("{n} has content type {:?}", ctype(n)));
        }
        if n.contains("//") || n.starts_with('/') || n.split('/').any(|s| s.is_empty() || s == "." || s == "..") {
            bad.push(format!("bad part name {n:?}"));
        }
    }
    // relationships, reachability
    let mut reached: BTreeSet<String> = BTreeSet::new();
    let mut todo = vec![String::new()];
    let mut singles = 0;
    while let Some(part) = todo.pop() {
        let rels = match p.rels(&part) {
            Ok(r) => r,
            Err(e) => {
                bad.push(e);
                continue;
            }
        };
        c.rels += rels.len();
        let mut ids = BTreeMap::new();
        let mut once = BTreeSet::new();
        for r in &rels {
            if ids.insert(r.id.clone(), r.clone()).is_some() {
                bad.push(format!("{part}: relationship id {} twice", r.id));
            }
            if r.id.is_empty() {
                bad.push(format!("{part}: empty relationship id"));
            }
            let k = kind(&r.typ);
            if !known_type(&r.typ) {
                bad.push(format!("{part}: relationship type {}", r.typ));
            }
            if !matches!(k, "hyperlink" | "image" | "header" | "footer" | "customXml" | "webextension") && !once.insert(k.to_string()) {
                bad.push(format!("{part}: two relationships of kind {k}"));
                singles += 1;
            }
            if r.external {
                if k != "hyperlink" {
                    bad.push(format!("{part}: external relationship of kind {k}"));
                }
                continue;
            }
            if k == "hyperlink" {
                bad.push(format!("{part}: internal hyperlink relationship {} -> {}", r.id, r.target));
                continue;
            }
            if !p.parts.contains_key(&r.part) {
                bad.push(format!("{part}: relationship {} ({k}) to missing part {}", r.id, r.part));
                continue;
            }
            let ct = ctype(&r.part).unwrap_or_default();
            if let Some(want) = expected_ct(k) {
                if !want.contains(&ct) {
                    bad.push(format!("{}: content type {ct} for a relationship of kind {k}", r.part));
                }
            }
            if k == "image" && !ct.starts_with("image/") {
                bad.push(format!("{}: content type {ct} for an image", r.part));
            }
            if let (Some(want), Some(t)) = (expected_root(k), trees.get(r.part.as_str())) {
                if t.name != want {
                    bad.push(format!("{}: root {} for a relationship of kind {k}", r.part, t.name));
                }
            }
            if reached.insert(r.part.clone()) {
                todo.push(r.part.clone());
            }
        }
        // references made by the part
        if let Some(t) = trees.get(part.as_str()) {
            let mut refs = 0;
            t.walk(|e| {
                for (n, v) in &e.attrs {
                    if !n.starts_with("r:") {
                        continue;
                    }
                    refs += 1;
                    let want = match e.name.as_str() {
                        "w:hyperlink" => "hyperlink",
                        "w:headerReference" => "header",
                        "w:footerReference" => "footer",
                        "a:blip" | "v:imagedata" => "image",
                        "wetp:webextensionref" => "webextension",
                        _ => "",
                    };
                    match ids.get(v) {
                        None => bad.push(format!("{part}: {} {n}={v} is not declared", e.name)),
                        Some(r) if !want.is_empty() && kind(&r.typ) != want => {
                            bad.push(format!("{part}: {} {n}={v} is a {} relationship", e.name, kind(&r.typ)))
                        }
                        _ => {}
                    }
                }
            });
            c.refs += refs;
        }
    }
    let _ = singles;
    for n in p.parts.keys() {
        if n == "[Content_Types].xml" || reached.contains(n) {
            continue;
        }
        if n.ends_with(".rels") {
            let owner = n.replacen("_rels/", "", 1);
            let owner = owner.strip_suffix(".rels").unwrap();
            if owner.is_empty() || reached.contains(owner) {
                continue;
            }
            bad.push(format!("{n} belongs to no reachable part"));
            continue;
        }
        if idle(p, n) {
            continue;
        }
        bad.push(format!("{n} is not reachable from the package root"));
    }
    match p.main_part() {
        Ok(_) => {}
        Err(e) => bad.push(e),
    }
    c.problems = bad;
    c
}

/// Parts the library always writes and relates only when they are put to use.
fn idle(p: &Package, n: &str) -> bool {
    let Ok(x) = p.xml(n) else { return false };
    match x.name.as_str() {
        "w:comments" | "w15:commentsEx" => x.els().count() == 0,
        "w:footnotes" => x.els().all(|f| f.attr("w:type").is_some()),
        "w:numbering" => !p.parts.keys().filter(|k| Package::is_xml(k) && *k != n).any(|k| {
            let mut used = false;
            if let Ok(e) = p.xml(k) {
                e.walk(|e| used |= e.name == "w:numPr");
            }
            used
        }),
        _ => false,
    }
}

/// The part a relationships part belongs to; the root's is the empty name.
pub fn rels_source(rels: &str) -> String {
    let f = rels.rsplit('/').next().unwrap_or("").trim_end_matches(".rels");
    match rels.rfind("_rels/") {
        Some(i) => format!("{}{f}", &rels[..i]),
        None => f.to_string(),
    }
}

/// Files of other programs: whatever the zip crate makes of them.
pub fn load(b: &[u8]) -> Result<Package, String> {
    let mut z = ::zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| e.to_string())?;
    let mut p = Package::default();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        if f.is_dir() {
            continue;
        }
        let name = f.name().replace('\\', "/").trim_start_matches('/').to_string();
        let mut v = vec![];
        f.read_to_end(&mut v).map_err(|e| e.to_string())?;
        p.order.push(name.clone());
        p.parts.insert(name, v);
    }
    Ok(p)
}

impl Package {
    /// Content types by part name.
    pub fn content_types(&self) -> impl Fn(&str) -> String {
        let e = self.xml("[Content_Types].xml").unwrap_or_else(|_| El::new("ct:Types"));
        move |n: &str| {
            let ext = n.rsplit('.').next().unwrap_or("");
            let mut t = None;
            for x in e.els() {
                let hit = if x.name == "ct:Override" {
                    x.attr("PartName").map(|p| p.trim_start_matches('/') == n).unwrap_or(false)
                } else {
                    t.is_none() && x.attr("Extension").map(|p| p.eq_ignore_ascii_case(ext)).unwrap_or(false)
                };
                if hit {
                    t = x.attr("ContentType").map(str::to_string);
                    if x.name == "ct:Override" {
                        break;
                    }
                }
            }
            t.unwrap_or_else(|| if Package::is_xml(n) { "application/xml".into() } else { "application/octet-stream".into() })
        }
    }
}
