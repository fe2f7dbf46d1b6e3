//! A strict, namespace-aware XML 1.0 parser written for this harness. It is the observer: it
//! shares no code with the XML reader of the crate under test. It rejects everything that is not
//! well-formed, and it names elements and attributes by namespace, with fixed prefixes.

use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    E(El),
    T(String),
}

impl El {
    pub fn new(name: &str) -> El {
        El { name: name.to_string(), attrs: vec![], kids: vec![] }
    }
    pub fn a(mut self, name: &str, v: impl ToString) -> El {
        self.attrs.push((name.to_string(), v.to_string()));
        self
    }
    pub fn opt(self, name: &str, v: Option<impl ToString>) -> El {
        match v {
            Some(v) => self.a(name, v),
            None => self,
        }
    }
    pub fn k(mut self, e: El) -> El {
        self.kids.push(Node::E(e));
        self
    }
    pub fn ks(mut self, es: Vec<El>) -> El {
        self.kids.extend(es.into_iter().map(Node::E));
        self
    }
    pub fn t(mut self, s: impl ToString) -> El {
        self.kids.push(Node::T(s.to_string()));
        self
    }
    pub fn push(&mut self, e: El) {
        self.kids.push(Node::E(e));
    }
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::E(e) => Some(e),
            _ => None,
        })
    }
    pub fn find(&self, name: &str) -> Option<&El> {
        self.els().find(|e| e.name == name)
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.els().filter(move |e| e.name == name)
    }
    /// Visit this element and all below it, in document order, without recursion.
    pub fn walk<'a>(&'a self, mut f: impl FnMut(&'a El)) {
        let mut stack = vec![self];
        while let Some(e) = stack.pop() {
            f(e);
            for k in e.kids.iter().rev() {
                if let Node::E(c) = k {
                    stack.push(c);
                }
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::T(t) => s.push_str(t),
                Node::E(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(|_| n += 1);
        n
    }
    /// Indented dump for reports.
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.dump_to(&mut s, 0);
        s
    }
    fn dump_to(&self, s: &mut String, d: usize) {
        let _ = write!(s, "{}<{}", "  ".repeat(d), self.name);
        for (n, v) in &self.attrs {
            let _ = write!(s, " {n}={v:?}");
        }
        s.push_str(">\n");
        for k in &self.kids {
            match k {
                Node::E(e) => e.dump_to(s, d + 1),
                Node::T(t) => {
                    let _ = writeln!(s, "{}{t:?}", "  ".repeat(d + 1));
                }
            }
        }
    }
    /// One-line form, used as a canonical key.
    pub fn flat(&self) -> String {
        let mut s = String::new();
        self.flat_to(&mut s);
        s
    }
    fn flat_to(&self, s: &mut String) {
        let _ = write!(s, "<{}", self.name);
        for (n, v) in &self.attrs {
            let _ = write!(s, " {n}={v:?}");
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::E(e) => e.flat_to(s),
                Node::T(t) => {
                    let _ = write!(s, "{t:?}");
                }
            }
        }
        s.push_str("</>");
    }
}

pub const NS: &[(&str, &str)] = &[
    ("w", "http://schemas.openxmlformats.org/wordprocessingml/2006/main"),
    ("r", "http://schemas.openxmlformats.org/officeDocument/2006/relationships"),
    ("wp", "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing"),
    ("a", "http://schemas.openxmlformats.org/drawingml/2006/main"),
    ("pic", "http://schemas.openxmlformats.org/drawingml/2006/picture"),
    ("w14", "http://schemas.microsoft.com/office/word/2010/wordml"),
    ("w15", "http://schemas.microsoft.com/office/word/2012/wordml"),
    ("mc", "http://schemas.openxmlformats.org/markup-compatibility/2006"),
    ("wps", "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"),
    ("rel", "http://schemas.openxmlformats.org/package/2006/relationships"),
    ("ct", "http://schemas.openxmlformats.org/package/2006/content-types"),
    ("cp", "http://schemas.openxmlformats.org/package/2006/metadata/core-properties"),
    ("dc", "http://purl.org/dc/elements/1.1/"),
    ("dcterms", "http://purl.org/dc/terms/"),
    ("xsi", "http://www.w3.org/2001/XMLSchema-instance"),
    ("ap", "http://schemas.openxmlformats.org/officeDocument/2006/extended-properties"),
    ("cup", "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties"),
    ("vt", "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes"),
    ("ds", "http://schemas.openxmlformats.org/officeDocument/2006/customXml"),
    ("we", "http://schemas.microsoft.com/office/webextensions/webextension/2010/11"),
    ("wetp", "http://schemas.microsoft.com/office/webextensions/taskpanes/2010/11"),
    ("pkg", "http://schemas.microsoft.com/office/2006/xmlPackage"),
    ("v", "urn:schemas-microsoft-com:vml"),
    ("o", "urn:schemas-microsoft-com:office:office"),
    ("xml", "http://www.w3.org/XML/1998/namespace"),
];

pub fn uri_of(prefix: &str) -> Option<&'static str> {
    NS.iter().find(|(p, _)| *p == prefix).map(|(_, u)| *u)
}

fn canon(uri: &str, local: &str) -> String {
    if uri.is_empty() {
        return local.to_string();
    }
    match NS.iter().find(|(_, u)| *u == uri) {
        Some((p, _)) => format!("{p}:{local}"),
        None => format!("{{{uri}}}{local}"),
    }
}

pub fn legal_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

fn name_start(c: char) -> bool {
    matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}'
        | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}' | '\u{200c}'..='\u{200d}' | '\u{2070}'..='\u{218f}'
        | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}'
        | '\u{10000}'..='\u{effff}')
}

fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let from = self.i.saturating_sub(60);
        let mut a = from;
        while !self.s.is_char_boundary(a) {
            a += 1;
        }
        let mut b = (self.i + 40).min(self.s.len());
        while !self.s.is_char_boundary(b) {
            b -= 1;
        }
        Err(format!("{m} at byte {} near {:?}", self.i, &self.s[a..b]))
    }
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while let Some(b) = self.s.as_bytes().get(self.i) {
            if matches!(b, b' ' | b'\t' | b'\r' | b'\n') {
                self.i += 1;
            } else {
                break;
            }
        }
        self.i > st
    }
    fn name(&mut self) -> R<&'a str> {
        let r = self.rest();
        let mut end = 0;
        for (i, c) in r.char_indices() {
            let ok = if i == 0 { name_start(c) } else { name_char(c) };
            if !ok {
                break;
            }
            end = i + c.len_utf8();
        }
        if end == 0 {
            return self.err("name expected");
        }
        self.i += end;
        Ok(&r[..end])
    }
    fn until(&mut self, t: &str, what: &str) -> R<&'a str> {
        match self.rest().find(t) {
            Some(n) => {
                let r = &self.rest()[..n];
                self.i += n + t.len();
                Ok(r)
            }
            None => self.err(&format!("unterminated {what}")),
        }
    }
    fn reference(&mut self) -> R<char> {
        // after '&'
        let body = match self.rest().find(';') {
            Some(n) if n <= 12 => {
                let r = &self.rest()[..n];
                self.i += n + 1;
                r
            }
            _ => return self.err("bad reference"),
        };
        let c = match body {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let code = if let Some(h) = body.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = body.strip_prefix('#') {
                    d.parse::<u32>().ok()
                } else {
                    None
                };
                match code.and_then(char::from_u32) {
                    Some(c) if legal_char(c) => c,
                    _ => return self.err(&format!("bad reference &{body};")),
                }
            }
        };
        Ok(c)
    }
    fn quoted(&mut self) -> R<String> {
        let q = match self.rest().chars().next() {
            Some(c @ ('"' | '\'')) => c,
            _ => return self.err("quote expected"),
        };
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = match self.rest().chars().next() {
                Some(c) => c,
                None => return self.err("unterminated attribute value"),
            };
            if c == q {
                self.i += 1;
                return Ok(out);
            }
            match c {
                '<' => return self.err("'<' in attribute value"),
                '&' => {
                    self.i += 1;
                    let c = self.reference()?;
                    out.push(c);
                }
                '\r' => {
                    self.i += 1;
                    if self.rest().starts_with('\n') {
                        self.i += 1;
                    }
                    out.push(' ');
                }
                '\t' | '\n' => {
                    self.i += 1;
                    out.push(' ');
                }
                c if legal_char(c) => {
                    self.i += c.len_utf8();
                    out.push(c);
                }
                _ => return self.err("illegal character in attribute value"),
            }
        }
    }
}

fn split_qname(q: &str) -> R<(&str, &str)> {
    match q.find(':') {
        None => Ok(("", q)),
        Some(i) => {
            let (p, l) = (&q[..i], &q[i + 1..]);
            if p.is_empty() || l.is_empty() || l.contains(':') {
                return Err(format!("bad qualified name {q:?}"));
            }
            Ok((p, l))
        }
    }
}

pub fn parse_bytes(b: &[u8]) -> R<El> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    parse(s)
}

/// Parse a whole document. White space between elements is kept as text nodes.
pub fn parse(s: &str) -> R<El> {
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let mut p = P { s, i: 0 };
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\r', '\n']) {
        let d = p.until("?>", "XML declaration")?;
        if !d.contains("version=\"1.0\"") && !d.contains("version='1.0'") {
            return p.err("XML declaration without version 1.0");
        }
    }
    // element under construction, namespace bindings it added
    let mut stack: Vec<(El, usize, String)> = vec![];
    let mut ns: Vec<(String, String)> = vec![("xml".into(), uri_of("xml").unwrap().into()), ("".into(), "".into())];
    let mut root: Option<El> = None;
    fn lookup<'a>(ns: &'a [(String, String)], p: &str) -> Option<&'a str> {
        ns.iter().rev().find(|(k, _)| k == p).map(|(_, v)| v.as_str())
    }
    fn add_text(e: &mut El, c: &str) {
        if let Some(Node::T(t)) = e.kids.last_mut() {
            t.push_str(c);
        } else {
            e.kids.push(Node::T(c.to_string()));
        }
    }
    loop {
        if p.i >= s.len() {
            if !stack.is_empty() {
                return p.err("document ends inside an element");
            }
            break;
        }
        if p.eat("<") {
            if p.eat("!--") {
                let c = p.until("-->", "comment")?;
                if c.contains("--") || c.ends_with('-') || !c.chars().all(legal_char) {
                    return p.err("bad comment");
                }
            } else if p.eat("![CDATA[") {
                let c = p.until("]]>", "CDATA section")?;
                if !c.chars().all(legal_char) {
                    return p.err("illegal character in CDATA");
                }
                match stack.last_mut() {
                    Some(t) => add_text(&mut t.0, &c.replace("\r\n", "\n").replace('\r', "\n")),
                    None => return p.err("CDATA outside the root element"),
                }
            } else if p.eat("?") {
                let n = p.name()?;
                if n.eq_ignore_ascii_case("xml") {
                    return p.err("misplaced XML declaration");
                }
                p.until("?>", "processing instruction")?;
            } else if p.eat("!") {
                return p.err("document type declaration");
            } else if p.eat("/") {
                let n = p.name()?;
                p.ws();
                if !p.eat(">") {
                    return p.err("'>' expected");
                }
                match stack.pop() {
                    Some((e, k, q)) => {
                        if q != n {
                            return p.err(&format!("end tag {n} closes {q}"));
                        }
                        ns.truncate(ns.len() - k);
                        match stack.last_mut() {
                            Some(t) => t.0.kids.push(Node::E(e)),
                            None => root = Some(e),
                        }
                    }
                    None => return p.err("end tag without start"),
                }
            } else {
                if stack.is_empty() && root.is_some() {
                    return p.err("second root element");
                }
                let q = p.name()?;
                let mut raw: Vec<(&str, String)> = vec![];
                let mut empty = false;
                loop {
                    let sp = p.ws();
                    if p.eat("/>") {
                        empty = true;
                        break;
                    }
                    if p.eat(">") {
                        break;
                    }
                    if !sp {
                        return p.err("white space expected before attribute");
                    }
                    let n = p.name()?;
                    p.ws();
                    if !p.eat("=") {
                        return p.err("'=' expected");
                    }
                    p.ws();
                    let v = p.quoted()?;
                    raw.push((n, v));
                }
                let mut added = 0;
                for (n, v) in &raw {
                    if *n == "xmlns" {
                        ns.push((String::new(), v.clone()));
                        added += 1;
                    } else if let Some(pr) = n.strip_prefix("xmlns:") {
                        if v.is_empty() {
                            return p.err("empty namespace for a prefix");
                        }
                        if pr == "xml" || pr == "xmlns" {
                            return p.err("reserved prefix");
                        }
                        ns.push((pr.to_string(), v.clone()));
                        added += 1;
                    }
                }
                let (pr, lo) = split_qname(q)?;
                let uri = match lookup(&ns, pr) {
                    Some(u) => u,
                    None => return p.err(&format!("unbound prefix {pr:?}")),
                };
                let mut e = El::new(&canon(uri, lo));
                let mut seen = std::collections::BTreeSet::new();
                let mut seen_raw = std::collections::BTreeSet::new();
                for (n, v) in raw {
                    if !seen_raw.insert(n) {
                        return p.err(&format!("attribute {n} twice"));
                    }
                    if n == "xmlns" || n.starts_with("xmlns:") {
                        continue;
                    }
                    let (pr, lo) = split_qname(n)?;
                    let name = if pr.is_empty() {
                        lo.to_string()
                    } else {
                        match lookup(&ns, pr) {
                            Some(u) => canon(u, lo),
                            None => return p.err(&format!("unbound prefix {pr:?}")),
                        }
                    };
                    if !seen.insert(name.clone()) {
                        return p.err(&format!("attribute {name} twice"));
                    }
                    e.attrs.push((name, v));
                }
                if empty {
                    ns.truncate(ns.len() - added);
                    match stack.last_mut() {
                        Some(t) => t.0.kids.push(Node::E(e)),
                        None => root = Some(e),
                    }
                } else {
                    stack.push((e, added, q.to_string()));
                }
            }
        } else {
            // character data
            let r = p.rest();
            let end = r.find('<').unwrap_or(r.len());
            let chunk = &r[..end];
            if stack.is_empty() {
                if !chunk.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) {
                    return p.err("text outside the root element");
                }
                p.i += end;
                continue;
            }
            if chunk.contains("]]>") {
                return p.err("']]>' in text");
            }
            let stop = p.i + end;
            let mut out = String::new();
            while p.i < stop {
                let c = p.rest().chars().next().unwrap();
                match c {
                    '&' => {
                        p.i += 1;
                        let c = p.reference()?;
                        out.push(c);
                    }
                    '\r' => {
                        p.i += 1;
                        if p.rest().starts_with('\n') {
                            p.i += 1;
                        }
                        out.push('\n');
                    }
                    c if legal_char(c) => {
                        p.i += c.len_utf8();
                        out.push(c);
                    }
                    _ => return p.err("illegal character in text"),
                }
            }
            add_text(&mut stack.last_mut().unwrap().0, &out);
        }
    }
    root.ok_or_else(|| "no root element".to_string())
}

impl Drop for El {
    // Trees of hostile depth must not overflow the stack when they go.
    fn drop(&mut self) {
        let mut todo: Vec<Node> = std::mem::take(&mut self.kids);
        while let Some(n) = todo.pop() {
            if let Node::E(mut e) = n {
                todo.append(&mut e.kids);
            }
        }
    }
}

/// Serialise with chosen prefixes; used to write packages of our own.
pub fn write(e: &El, decl: bool) -> String {
    let mut used: BTreeMap<&str, ()> = BTreeMap::new();
    e.walk(|x| {
        for n in std::iter::once(&x.name).chain(x.attrs.iter().map(|a| &a.0)) {
            if let Some((p, _)) = n.split_once(':') {
                if let Some((k, _)) = NS.iter().find(|(k, _)| *k == p) {
                    if *k != "xml" {
                        used.insert(k, ());
                    }
                }
            }
        }
    });
    let mut s = String::new();
    if decl {
        s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>");
    }
    write_to(e, &mut s, Some(&used));
    s
}

pub fn esc(s: &str, attr: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' if attr => o.push_str("&quot;"),
            '\n' | '\t' if attr => {
                let _ = write!(o, "&#{};", c as u32);
            }
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

fn write_to(e: &El, s: &mut String, decls: Option<&BTreeMap<&str, ()>>) {
    let _ = write!(s, "<{}", e.name);
    if let Some(d) = decls {
        for p in d.keys() {
            let _ = write!(s, " xmlns:{p}=\"{}\"", uri_of(p).unwrap());
        }
    }
    for (n, v) in &e.attrs {
        let _ = write!(s, " {n}=\"{}\"", esc(v, true));
    }
    if e.kids.is_empty() {
        s.push_str("/>");
        return;
    }
    s.push('>');
    for k in &e.kids {
        match k {
            Node::E(c) => write_to(c, s, None),
            Node::T(t) => s.push_str(&esc(t, false)),
        }
    }
    let _ = write!(s, "</{}>", e.name);
}
