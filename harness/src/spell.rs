//! Writing the same package in other words.

use crate::pkg::{self, Package};
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Tok {
    Decl,
    Start { name: String, attrs: Vec<(String, String)>, empty: bool },
    End(String),
    Text(String),
    Other(String),
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        o.push_str(&r[..i]);
        let e = r[i..].find(';').expect("reference") + i;
        let n = &r[i + 1..e];
        o.push(match n {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let c = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).expect("reference")
                } else {
                    n.strip_prefix('#').expect("reference").parse().expect("reference")
                };
                char::from_u32(c).expect("reference")
            }
        });
        r = &r[e + 1..];
    }
    o.push_str(r);
    o
}

/// The tokens of well-formed XML.
pub fn tokens(s: &str) -> Vec<Tok> {
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let mut out: Vec<Tok> = vec![];
    let mut i = 0;
    let text = |out: &mut Vec<Tok>, t: String| {
        if let Some(Tok::Text(l)) = out.last_mut() {
            l.push_str(&t);
        } else {
            out.push(Tok::Text(t));
        }
    };
    while i < s.len() {
        let r = &s[i..];
        let upto = |m: &str| r.find(m).expect("well-formed XML") + m.len();
        if r.starts_with("<?xml ") {
            i += upto("?>");
            out.push(Tok::Decl);
        } else if r.starts_with("<![CDATA[") {
            let e = upto("]]>");
            text(&mut out, r[9..e - 3].replace("\r\n", "\n").replace('\r', "\n"));
            i += e;
        } else if r.starts_with("<!--") {
            i += upto("-->");
        } else if r.starts_with("<?") {
            i += upto("?>");
        } else if r.starts_with("</") {
            let e = upto(">");
            out.push(Tok::End(r[2..e - 1].trim_end().to_string()));
            i += e;
        } else if let Some(t) = r.strip_prefix('<') {
            let n = t.find([' ', '\t', '\r', '\n', '/', '>']).unwrap();
            let name = t[..n].to_string();
            let mut p = n;
            let mut attrs = vec![];
            let empty;
            loop {
                p += t[p..].len() - t[p..].trim_start().len();
                if t[p..].starts_with("/>") {
                    empty = true;
                    p += 2;
                    break;
                }
                if t[p..].starts_with('>') {
                    empty = false;
                    p += 1;
                    break;
                }
                let e = t[p..].find('=').expect("attribute") + p;
                let an = t[p..e].trim_end().to_string();
                p = e + 1;
                p += t[p..].len() - t[p..].trim_start().len();
                let q = t[p..].chars().next().unwrap();
                let e = t[p + 1..].find(q).expect("attribute") + p + 1;
                let raw = t[p + 1..e].replace("\r\n", " ").replace(['\r', '\n', '\t'], " ");
                attrs.push((an, unescape(&raw)));
                p = e + 1;
            }
            out.push(Tok::Start { name, attrs, empty });
            i += p + 1;
        } else {
            let e = r.find('<').unwrap_or(r.len());
            text(&mut out, unescape(&r[..e].replace("\r\n", "\n").replace('\r', "\n")));
            i += e;
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Way {
    Order,
    Quotes,
    TagSpace,
    Empty,
    Refs,
    Cdata,
    Comments,
    Pis,
    Indent,
    Bom,
    Decl,
    Unknown,
    UnknownAttr,
    /// former properties, which tracked changes of formatting leave behind
    Former,
    Switches,
    /// attributes that say what holds without them
    Defaults,
    /// the other names of the left and right side
    Sides,
    Ids,
    /// the same few relationship ids in every part
    Clash,
    Names,
    Absolute,
    Zip,
}

pub const WAYS: &[Way] = &[
    Way::Order,
    Way::Quotes,
    Way::TagSpace,
    Way::Empty,
    Way::Refs,
    Way::Cdata,
    Way::Comments,
    Way::Pis,
    Way::Indent,
    Way::Bom,
    Way::Decl,
    Way::Unknown,
    Way::UnknownAttr,
    Way::Former,
    Way::Switches,
    Way::Defaults,
    Way::Sides,
    Way::Ids,
    Way::Names,
    Way::Absolute,
    Way::Zip,
];

/// Elements whose character data counts even if blank.
const TEXT: &[&str] = &["t", "delText", "instrText", "delInstrText"];

/// Element, attribute and the value it has when absent.
const DEFAULTS: &[(&str, &str, &str)] = &[
    ("wp:inline", "distT", "0"),
    ("wp:inline", "distB", "0"),
    ("wp:inline", "distL", "0"),
    ("wp:inline", "distR", "0"),
    ("wp:anchor", "distT", "0"),
    ("wp:anchor", "distB", "0"),
    ("wp:anchor", "distL", "0"),
    ("wp:anchor", "distR", "0"),
    ("w:br", "w:type", "textWrapping"),
    ("w:vMerge", "w:val", "continue"),
    ("Relationship", "TargetMode", "Internal"),
];

/// Elements with left and right sides.
const SIDED: &[&str] = &["w:tblBorders", "w:tcBorders", "w:tcMar"];

/// On/off elements.
const SWITCH: &[&str] = &[
    "w:b", "w:bCs", "w:i", "w:iCs", "w:strike", "w:dstrike", "w:caps", "w:vanish", "w:specVanish", "w:keepNext",
    "w:keepLines", "w:pageBreakBefore", "w:widowControl", "w:bidi", "w:snapToGrid", "w:titlePg", "w:cantSplit", "w:tblHeader",
    "w:evenAndOddHeaders", "w:isLgl", "w:noWrap", "w:adjustRightInd",
];
const SWITCH_ATTR: &[&str] =
    &["w15:done", "w:firstRow", "w:lastRow", "w:firstColumn", "w:lastColumn", "w:noHBand", "w:noVBand"];

const ON: &[&str] = &["1", "true", "on"];
const OFF: &[&str] = &["0", "false", "off"];

fn local(n: &str) -> &str {
    n.rsplit(':').next().unwrap()
}

pub struct Speller<'a> {
    pub r: &'a mut Rng,
    pub ways: BTreeSet<Way>,
    pub used: BTreeMap<&'static str, u64>,
    serial: u64,
}

impl<'a> Speller<'a> {
    pub fn new(r: &'a mut Rng, ways: BTreeSet<Way>) -> Self {
        Speller { r, ways, used: BTreeMap::new(), serial: 0 }
    }
    fn w(&self, w: Way) -> bool {
        self.ways.contains(&w)
    }
    fn did(&mut self, k: &'static str) {
        *self.used.entry(k).or_insert(0) += 1;
    }
    fn reference(&mut self, c: char) -> String {
        match self.r.below(3) {
            0 => format!("&#{};", c as u32),
            1 => format!("&#x{:x};", c as u32),
            _ => format!("&#x{:04X};", c as u32),
        }
    }
    fn put(&mut self, s: &mut String, v: &str, quote: Option<char>) {
        let dense = self.r.one_in(4);
        let all: Vec<char> = v.chars().collect();
        for (i, c) in all.iter().enumerate() {
            let c = *c;
            if self.w(Way::Refs) && (dense || self.r.one_in(12)) {
                self.did("character references");
                let x = self.reference(c);
                s.push_str(&x);
                continue;
            }
            match c {
                '<' => s.push_str("&lt;"),
                '&' => s.push_str("&amp;"),
                '>' => {
                    // may stand for itself unless it ends what looks like a CDATA section
                    if self.w(Way::Refs) && !(i > 0 && all[i - 1] == ']') && self.r.flip() {
                        s.push('>')
                    } else {
                        s.push_str("&gt;")
                    }
                }
                '"' if quote == Some('"') => s.push_str("&quot;"),
                '\'' if quote == Some('\'') => s.push_str("&apos;"),
                '\r' => s.push_str("&#13;"),
                '\n' | '\t' if quote.is_some() => s.push_str(&format!("&#{};", c as u32)),
                c => s.push(c),
            }
        }
    }
    fn space(&mut self) -> &'static str {
        *self.r.pick(&[" ", "  ", "\n", "\t", "\r\n", " \n  "])
    }
    fn filler(&mut self, s: &mut String, unknown: bool) {
        if self.w(Way::Indent) && self.r.flip() {
            let sp = *self.r.pick(&[" ", "\n", "\n    ", "\t", "\r\n  "]);
            s.push_str(sp);
            self.did("white space between elements");
        }
        if self.w(Way::Comments) && self.r.one_in(5) {
            let c = *self.r.pick(&["<!-- c -->", "<!---->", "<!-- <w:t>no</w:t> -->", "<!-- </w:p> & ]]> -->"]);
            s.push_str(c);
            self.did("comments");
        }
        if self.w(Way::Pis) && self.r.one_in(5) {
            let c = *self.r.pick(&["<?pi?>", "<?pi <w:t>no</w:t>?>", "<?x y='>'?>"]);
            s.push_str(c);
            self.did("processing instructions");
        }
        if unknown && self.w(Way::Unknown) && self.r.one_in(6) {
            self.serial += 1;
            let n = self.serial;
            let x = match self.r.below(4) {
                0 => format!("<u:unknown{n} xmlns:u=\"urn:u\"/>"),
                1 => format!("<u:unknown{n} xmlns:u=\"urn:u\" u:val=\"{n}\"></u:unknown{n}>"),
                2 => format!("<u:unknown{n} xmlns:u=\"urn:u\">unknown text<u:deeper{n} val=\"1\">more</u:deeper{n}></u:unknown{n}>"),
                _ => format!("<w:unknown{n} w:val=\"x\" xmlns:w=\"urn:u\"><w:deeper{n}/></w:unknown{n}>"),
            };
            s.push_str(&x);
            self.did("unknown elements");
        }
    }
    fn former(&mut self, s: &mut String, n: &str) {
        let old = match n {
            "w:rPr" => "<w:rPrChange @><w:rPr><w:b/><w:sz w:val=\"91\"/><w:color w:val=\"00AA00\"/></w:rPr></w:rPrChange>",
            "w:tblPr" => "<w:tblPrChange @><w:tblPr><w:tblW w:w=\"4321\" w:type=\"dxa\"/><w:jc w:val=\"right\"/><w:tblBorders><w:top w:val=\"dotted\" w:sz=\"9\" w:color=\"123456\"/></w:tblBorders></w:tblPr></w:tblPrChange>",
            "w:tblGrid" => "<w:tblGridChange w:id=\"7\"><w:tblGrid><w:gridCol w:w=\"4321\"/></w:tblGrid></w:tblGridChange>",
            "w:trPr" => "<w:trPrChange @><w:trPr><w:cantSplit/><w:trHeight w:val=\"4321\" w:hRule=\"exact\"/><w:gridAfter w:val=\"7\"/></w:trPr></w:trPrChange>",
            "w:tcPr" => "<w:tcPrChange @><w:tcPr><w:tcW w:w=\"4321\" w:type=\"dxa\"/><w:vMerge w:val=\"restart\"/><w:gridSpan w:val=\"7\"/></w:tcPr></w:tcPrChange>",
            "w:sectPr" => "<w:sectPrChange @><w:sectPr><w:type w:val=\"evenPage\"/><w:pgSz w:w=\"4321\" w:h=\"1234\"/><w:pgMar w:top=\"7\" w:left=\"8\"/><w:cols w:num=\"3\"/><w:titlePg/></w:sectPr></w:sectPrChange>",
            _ => return,
        };
        s.push_str(&old.replace('@', "w:id=\"7\" w:author=\"A\" w:date=\"2020-01-01T00:00:00Z\""));
        self.did("former properties");
    }
    /// Spells one part. `opc` parts take no unknown elements.
    pub fn part(&mut self, toks: &[Tok], opc: bool) -> String {
        // which elements have character data that counts
        let mut texty = vec![false; toks.len()];
        let mut open: Vec<usize> = vec![];
        for (i, t) in toks.iter().enumerate() {
            match t {
                Tok::Start { name, empty, .. } => {
                    texty[i] = TEXT.contains(&local(name));
                    if !empty {
                        open.push(i);
                    }
                }
                Tok::End(_) => {
                    open.pop();
                }
                Tok::Text(s) => {
                    if let Some(o) = open.last() {
                        if !s.trim().is_empty() {
                            texty[*o] = true;
                        }
                    }
                }
                _ => {}
            }
        }
        let mut s = String::new();
        let mut stack: Vec<(bool, bool)> = vec![];
        let (want_bom, want_decl) = (self.w(Way::Bom) && self.r.flip(), !self.w(Way::Decl) || self.r.flip());
        if want_bom {
            s.push('\u{feff}');
            self.did("byte order marks");
        }
        if want_decl {
            let d = if self.w(Way::Decl) {
                self.did("other XML declarations");
                *self.r.pick(&[
                    "<?xml version='1.0' encoding='utf-8'?>",
                    "<?xml version=\"1.0\"?>\n",
                    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\r\n",
                    "<?xml  version = '1.0'  encoding = 'UTF-8'  standalone='yes' ?>",
                ])
            } else {
                "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>"
            };
            s.push_str(d);
        }
        let mut toks = toks.to_vec();
        if self.w(Way::Sides) {
            self.sides(&mut toks);
        }
        let mut i = 0;
        let mut plain = false; // directly after a tag in a place where nothing but elements count
        while i < toks.len() {
            let t = toks[i].clone();
            match t {
                Tok::Decl => {}
                Tok::Other(o) => s.push_str(&o),
                Tok::Start { name, mut attrs, empty } => {
                    if plain || stack.is_empty() {
                        let u = !opc && !stack.is_empty();
                        self.filler(&mut s, u);
                    }
                    let hollow = empty || matches!(toks.get(i + 1), Some(Tok::End(_)));
                    self.attributes(&name, &mut attrs, opc);
                    s.push('<');
                    s.push_str(&name);
                    if self.w(Way::Order) && attrs.len() > 1 {
                        self.r.shuffle(&mut attrs);
                        self.did("attribute orders");
                    }
                    for (n, v) in &attrs {
                        if self.w(Way::TagSpace) {
                            let sp = self.space();
                            s.push_str(sp);
                            self.did("white space in tags");
                        } else {
                            s.push(' ');
                        }
                        s.push_str(n);
                        if self.w(Way::TagSpace) && self.r.one_in(4) {
                            let sp = self.space();
                            s.push_str(sp);
                            s.push('=');
                            let sp = self.space();
                            s.push_str(sp);
                        } else {
                            s.push('=');
                        }
                        let q = if self.w(Way::Quotes) && self.r.flip() {
                            self.did("single quotes");
                            '\''
                        } else {
                            '"'
                        };
                        s.push(q);
                        // namespace names stay readable for everybody
                        if n.starts_with("xmlns") {
                            s.push_str(v);
                        } else {
                            self.put(&mut s, v, Some(q));
                        }
                        s.push(q);
                    }
                    if self.w(Way::TagSpace) && self.r.one_in(4) {
                        let sp = self.space();
                        s.push_str(sp);
                    }
                    if hollow {
                        let short = if self.w(Way::Empty) {
                            self.did("self-closing forms");
                            self.r.flip()
                        } else {
                            empty
                        };
                        if short {
                            s.push_str("/>");
                        } else {
                            s.push_str(&format!("></{name}>"));
                        }
                        if !empty {
                            i += 1;
                        }
                        plain = stack.last().map(|x| !x.0).unwrap_or(false);
                    } else {
                        s.push('>');
                        // markup compatibility blocks hold what their kind allows only
                        let closed = stack.last().map(|x| x.1).unwrap_or(false) || local(&name) == "AlternateContent";
                        stack.push((texty[i], closed));
                        plain = !texty[i];
                    }
                }
                Tok::End(n) => {
                    let (_, closed) = *stack.last().unwrap();
                    if plain {
                        self.filler(&mut s, !opc && !closed);
                        if self.w(Way::Former) && !opc && self.r.one_in(3) {
                            self.former(&mut s, &n);
                        }
                    }
                    stack.pop();
                    s.push_str("</");
                    s.push_str(&n);
                    if self.w(Way::TagSpace) && self.r.one_in(4) {
                        let sp = self.space();
                        s.push_str(sp);
                    }
                    s.push('>');
                    plain = stack.last().map(|x| !x.0).unwrap_or(false);
                }
                Tok::Text(t) => {
                    let texty = stack.last().map(|x| x.0).unwrap_or(false);
                    if !texty {
                        s.push_str(&t);
                    } else {
                        self.text(&mut s, &t);
                    }
                }
            }
            i += 1;
        }
        if self.w(Way::Comments) && self.r.flip() {
            s.push_str("<!-- end -->");
        }
        s
    }
    fn text(&mut self, s: &mut String, t: &str) {
        let c: Vec<char> = t.chars().collect();
        let mut at = 0;
        while at < c.len() {
            let n = if self.w(Way::Cdata) || self.w(Way::Comments) || self.w(Way::Pis) {
                1 + self.r.us(c.len() - at)
            } else {
                c.len() - at
            };
            let piece: String = c[at..at + n].iter().collect();
            if self.w(Way::Cdata) && self.r.flip() && !piece.contains("]]>") && !piece.contains('\r') && piece.chars().any(|c| !c.is_ascii_whitespace()) {
                s.push_str(&format!("<![CDATA[{piece}]]>"));
                self.did("CDATA sections");
            } else {
                self.put(s, &piece, None);
            }
            at += n;
            if at < c.len() {
                if self.w(Way::Comments) && self.r.flip() {
                    s.push_str("<!-- in text -->");
                    self.did("comments in text");
                }
                if self.w(Way::Pis) && self.r.flip() {
                    s.push_str("<?in text?>");
                    self.did("processing instructions in text");
                }
            }
        }
    }
    /// Calls the left side the start, and the right one the end.
    fn sides(&mut self, toks: &mut [Tok]) {
        let mut stack: Vec<(String, bool)> = vec![];
        let other = |n: &str| match n {
            "w:left" => "w:start".to_string(),
            "w:right" => "w:end".to_string(),
            n => n.to_string(),
        };
        for t in toks.iter_mut() {
            match t {
                Tok::Start { name, attrs, empty } => {
                    let there = stack.last().map(|x| x.1 && SIDED.contains(&x.0.as_str())).unwrap_or(false);
                    if there && (name == "w:left" || name == "w:right") {
                        *name = other(name);
                        self.did("start and end sides");
                    }
                    if name == "w:ind" && self.r.flip() && !attrs.iter().any(|a| a.0 == "w:start" || a.0 == "w:end") {
                        for a in attrs.iter_mut() {
                            a.0 = other(&a.0);
                        }
                        self.did("start and end sides");
                    }
                    if !*empty {
                        stack.push((name.clone(), self.r.flip()));
                    }
                }
                Tok::End(n) => {
                    let (name, _) = stack.pop().unwrap();
                    *n = name;
                }
                _ => {}
            }
        }
    }
    fn attributes(&mut self, name: &str, attrs: &mut Vec<(String, String)>, opc: bool) {
        if self.w(Way::Switches) {
            if SWITCH.contains(&name) {
                let at = attrs.iter().position(|a| a.0 == "w:val");
                let on = match at {
                    None => Some(true),
                    Some(i) if ON.contains(&attrs[i].1.as_str()) => Some(true),
                    Some(i) if OFF.contains(&attrs[i].1.as_str()) => Some(false),
                    _ => None,
                };
                if let Some(on) = on {
                    self.did("switch spellings");
                    let v = *self.r.pick(if on { ON } else { OFF });
                    match at {
                        Some(i) => attrs[i].1 = v.into(),
                        None => attrs.push(("w:val".into(), v.into())),
                    }
                    if on && self.r.one_in(3) {
                        attrs.retain(|a| a.0 != "w:val");
                    }
                }
            }
            for a in attrs.iter_mut() {
                if SWITCH_ATTR.contains(&a.0.as_str()) {
                    for set in [ON, OFF] {
                        if set.contains(&a.1.as_str()) {
                            self.did("switch spellings");
                            a.1 = (*self.r.pick(set)).into();
                            break;
                        }
                    }
                }
            }
        }
        if self.w(Way::Defaults) {
            for (e, a, v) in DEFAULTS {
                if *e == name && self.r.flip() {
                    let at = attrs.iter().position(|x| x.0 == *a);
                    match at {
                        Some(i) if attrs[i].1 == *v => {
                            attrs.remove(i);
                            self.did("defaults left out");
                        }
                        None => {
                            attrs.push((a.to_string(), v.to_string()));
                            self.did("defaults spelled out");
                        }
                        _ => {}
                    }
                }
            }
        }
        if self.w(Way::UnknownAttr) && !opc && self.r.one_in(4) {
            self.serial += 1;
            let n = self.serial;
            attrs.push(("xmlns:ua".into(), "urn:ua".into()));
            let v = *self.r.pick(&["0", "false", "off", "1", "none", "", "rId1", "x&y"]);
            attrs.push((format!("ua:unknown{n}"), v.into()));
            if self.r.flip() {
                attrs.push((format!("ua:more{n}"), "1".to_string()));
            }
            self.did("unknown attributes");
        }
    }
}

const REL_NS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";

/// A respelled package and how to get the old names back (new, old).
pub struct Spelled {
    pub pkg: Package,
    pub back: Vec<(String, String)>,
    pub used: BTreeMap<&'static str, u64>,
}

fn is_xml(name: &str, b: &[u8]) -> bool {
    (name.ends_with(".xml") || name.ends_with(".rels") || name.ends_with(".vml"))
        && std::str::from_utf8(b).map(|s| s.trim_start_matches('\u{feff}').trim_start().starts_with('<')).unwrap_or(false)
        && !String::from_utf8_lossy(b).contains("<!DOCTYPE")
}

fn dir(n: &str) -> &str {
    n.rfind('/').map(|i| &n[..i]).unwrap_or("")
}

pub fn respell(p: &Package, r: &mut Rng, ways: BTreeSet<Way>) -> Spelled {
    let mut back = vec![];
    let mut serial = r.below(50);
    let mut toks: BTreeMap<String, Vec<Tok>> = BTreeMap::new();
    for (n, b) in &p.parts {
        if is_xml(n, b) {
            toks.insert(n.clone(), tokens(std::str::from_utf8(b).unwrap()));
        }
    }
    let mut sp = Speller::new(r, ways);
    // relationship ids
    let names: Vec<String> = toks.keys().cloned().collect();
    let clash = sp.w(Way::Clash);
    if sp.w(Way::Ids) || clash {
        for n in &names {
            let rels = pkg::rels_name(n);
            if n.ends_with(".rels") || !toks.contains_key(&rels) {
                continue;
            }
            let usable = toks[n].iter().all(|t| match t {
                Tok::Start { attrs, .. } => attrs.iter().all(|a| a.1 != REL_NS || a.0 == "xmlns:r"),
                _ => true,
            });
            if !usable {
                continue;
            }
            let mut map: BTreeMap<String, String> = BTreeMap::new();
            let mut numbers: Vec<usize> = (1..=toks[&rels].len()).collect();
            sp.r.shuffle(&mut numbers);
            for t in toks.get_mut(&rels).unwrap() {
                if let Tok::Start { name, attrs, .. } = t {
                    if local(name) == "Relationship" {
                        for a in attrs.iter_mut().filter(|a| a.0 == "Id") {
                            serial += 1;
                            let new = if sp.r.flip() { format!("relZ{serial}") } else { format!("{serial}Zr") };
                            let new = if new.starts_with(|c: char| c.is_ascii_digit()) { format!("R{new}") } else { new };
                            let new = if clash { format!("rId{}", numbers.pop().unwrap()) } else { new };
                            back.push((new.clone(), a.1.clone()));
                            map.insert(a.1.clone(), new.clone());
                            a.1 = new;
                            sp.did("renamed relationship ids");
                        }
                    }
                }
            }
            for t in toks.get_mut(n).unwrap() {
                if let Tok::Start { attrs, .. } = t {
                    for a in attrs.iter_mut().filter(|a| a.0.starts_with("r:") || a.0 == "o:relid") {
                        if let Some(x) = map.get(&a.1) {
                            a.1 = x.clone();
                        }
                    }
                }
            }
        }
    }
    // part names
    let mut moved: BTreeMap<String, String> = BTreeMap::new();
    if sp.w(Way::Names) {
        for n in p.parts.keys() {
            if n.ends_with('/') || n == "[Content_Types].xml" || n.ends_with(".rels") || sp.r.one_in(4) {
                continue;
            }
            let ext = n.rsplit('.').next().unwrap();
            serial += 1;
            let d = dir(n);
            let new = match sp.r.below(3) {
                // parts looked up through another part's directory stay where they are
                0 if !d.is_empty() && d != "word" => format!("{d}/deeper/named{serial}.{ext}"),
                _ if d.is_empty() => format!("named{serial}.{ext}"),
                _ => format!("{d}/named{serial}.{ext}"),
            };
            moved.insert(n.clone(), new.clone());
            back.push((new, n.clone()));
            sp.did("renamed parts");
        }
    }
    let to = |n: &str| moved.get(n).cloned().unwrap_or_else(|| n.to_string());
    for n in &names {
        if n == "[Content_Types].xml" {
            for t in toks.get_mut(n).unwrap() {
                if let Tok::Start { attrs, .. } = t {
                    for a in attrs.iter_mut().filter(|a| a.0 == "PartName") {
                        a.1 = format!("/{}", to(a.1.trim_start_matches('/')));
                    }
                }
            }
        }
        if !n.ends_with(".rels") {
            continue;
        }
        let source = pkg::rels_source(n);
        let here = to(&source);
        for t in toks.get_mut(n).unwrap() {
            if let Tok::Start { name, attrs, .. } = t {
                if local(name) != "Relationship" || attrs.iter().any(|a| a.0 == "TargetMode" && a.1 == "External") {
                    continue;
                }
                for a in attrs.iter_mut().filter(|a| a.0 == "Target") {
                    let part = pkg::resolve(&source, &a.1);
                    if !p.parts.contains_key(&part) {
                        continue;
                    }
                    let new = to(&part);
                    if sp.w(Way::Absolute) && sp.r.flip() {
                        a.1 = format!("/{new}");
                        sp.did("absolute targets");
                    } else if new != part || here != source {
                        a.1 = relative(dir(&here), &new);
                    } else if sp.w(Way::Absolute) && sp.r.flip() {
                        let d = dir(&here);
                        a.1 = match d {
                            "" => format!("./{new}"),
                            d if sp.r.flip() => format!("./{}", relative(d, &new)),
                            d => format!("{}{new}", "../".repeat(d.split('/').count())),
                        };
                        sp.did("roundabout targets");
                    }
                }
            }
        }
    }
    let mut out = Package::default();
    for n in &p.order {
        let b = &p.parts[n];
        let new = if n.ends_with(".rels") {
            pkg::rels_name(&to(&pkg::rels_source(n)))
        } else {
            to(n)
        };
        let body = match toks.get(n) {
            Some(t) => sp.part(t, n == "[Content_Types].xml" || n.ends_with(".rels")).into_bytes(),
            None => b.clone(),
        };
        out.order.push(new.clone());
        out.parts.insert(new, body);
    }
    let used = std::mem::take(&mut sp.used);
    Spelled { pkg: out, back, used }
}

fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = if from.is_empty() { vec![] } else { from.split('/').collect() };
    let t: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    format!("{}{}", "../".repeat(f.len() - k), t[k..].join("/"))
}
