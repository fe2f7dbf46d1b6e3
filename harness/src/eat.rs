//! Reading damaged and hostile input. The reading is done in a process of its own with a stack of
//! ordinary size, a limit on memory and one on processor time.

use crate::alloc;
use crate::check::*;
use crate::gen::*;
use crate::pkg::{self, Package};
use crate::reads;
use crate::spell::{self, Tok};
use crate::util::{hash, mix, Rng};
use crate::xml::esc;
use docx_rs::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// inputs made from one seed
const INPUTS: u64 = 40;
/// the size of the stack of a thread that is started without asking for one
const STACK: usize = 2 << 20;
/// processor time one input may take
const SECONDS: u64 = 30;
const BASE_MEMORY: u64 = 64 << 20;
/// bytes of memory per byte of unpacked input
const FACTOR: u64 = 500;

enum Data {
    Zip(Vec<u8>),
    Flat(String),
    Part(Vec<u8>),
}

struct Input {
    what: String,
    data: Data,
    /// unpacked
    size: u64,
    /// the main part is damaged, so that it has to be refused
    refuse: bool,
    /// if it is read, these are the texts
    texts: Option<Vec<String>>,
}

const NAMES: &[&str] = &[
    "w:p", "w:r", "w:t", "w:tbl", "w:tr", "w:tc", "w:sdt", "w:sdtContent", "w:hyperlink", "w:ins", "w:del", "w:moveFrom",
    "w:moveTo", "w:pPr", "w:rPr", "w:pPrChange", "w:rPrChange", "w:sectPr", "w:drawing", "wp:inline", "wp:anchor", "a:graphic",
    "a:graphicData", "pic:pic", "pic:blipFill", "a:blip", "wps:wsp", "wps:txbx", "w:txbxContent", "mc:AlternateContent",
    "mc:Fallback", "mc:Choice", "v:shape", "v:imagedata", "w:pict", "w:tabs", "w:tab", "w:numPr", "w:numId", "w:ilvl", "w:tblPr",
    "w:tcPr", "w:trPr", "w:tblGrid", "w:gridCol", "w:instrText", "w:delInstrText", "w:delText", "w:fldChar",
    "w:bookmarkStart", "w:bookmarkEnd", "w:commentRangeStart", "w:commentRangeEnd", "w:br", "w:sym", "w:ptab", "w:style",
    "w:lvl", "w:abstractNum", "w:num", "w:lvlOverride", "w:comment", "w:footnoteReference", "w:ind", "w:spacing", "w:jc",
    "w:framePr", "w:pBdr", "w:tblBorders", "w:tcBorders", "w:top", "w:left", "w:right", "w:bottom", "w:tblCellMar", "w:tcMar",
    "w:vMerge", "w:gridSpan", "w:textDirection", "w:shd", "w:color", "w:sz", "w:rFonts", "w:headerReference",
    "w:footerReference", "w:pgSz", "w:pgMar", "w:cols", "w:docGrid", "w:titlePg", "w:pgNumType", "w:body", "w:document",
    "w:settings", "w:styles", "w:numbering", "w:hdr", "w:ftr", "w:comments", "Relationships", "Relationship", "w15:commentEx",
    "w:docDefaults", "w:rPrDefault", "w:pPrDefault", "w:divs", "w:div", "a:theme", "a:fontScheme", "a:majorFont", "a:latin",
    "wp:extent", "wp:positionH", "wp:posOffset", "wp:align", "wp:simplePos", "a:xfrm", "a:ext", "a:off",
];

const VALUES: &[&str] = &[
    "", " ", "0", "-0", "-1", "1", "1.5", "1e5", "1e309", "-1e309", "NaN", "inf", "2147483647", "2147483648", "-2147483648",
    "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
    "18446744073709551616", "99999999999999999999999999999999999999999", "0x10", "ffffffff", "12%", "3pt", "-5in", "true",
    "on", "None", "\u{ff11}", "é", "\u{1F600}", "a b", "%1", "#", "../../..", "/", "//", "\\", "word", "word/", "..", "{}",
    "rId1", "rId99999", "auto", "both", "dxa", "nil", "pct",
];

const CHAINS: &[&[&str]] = &[
    &["w:tbl", "w:tr", "w:tc"],
    &["w:sdt", "w:sdtContent"],
    &["w:p"],
    &["w:r"],
    &["w:p", "w:r"],
    &["w:hyperlink"],
    &["w:ins"],
    &["w:del"],
    &["w:ins", "w:del"],
    &["w:moveTo", "w:del"],
    &["w:moveFrom"],
    &["w:p", "w:r", "w:drawing", "wp:anchor", "a:graphic", "a:graphicData", "wps:wsp", "wps:txbx", "w:txbxContent"],
    &["w:p", "w:r", "w:drawing", "wp:inline", "a:graphic", "a:graphicData", "pic:pic"],
    &["w:p", "w:r", "mc:AlternateContent", "mc:Choice", "w:drawing", "wp:anchor", "a:graphic", "a:graphicData", "wps:wsp", "wps:txbx", "w:txbxContent"],
    &["w:p", "w:r", "mc:AlternateContent", "mc:Fallback", "w:pict", "v:shape"],
    &["w:p", "w:sdt", "w:sdtContent", "w:r"],
    &["w:p", "w:hyperlink", "w:sdt", "w:sdtContent"],
    &["w:p", "w:pPr", "w:pPrChange"],
    &["w:pPr", "w:rPr", "w:rPrChange"],
    &["w:sectPr"],
    &["w:tbl", "w:tblPr"],
    &["w:divs", "w:div", "w:divsChild"],
    &["w:div", "w:divsChild"],
    &["w:style", "w:rPr"],
    &["w:lvl", "w:pPr"],
    &["x:y"],
];

fn write_toks(t: &[Tok]) -> String {
    let mut s = String::new();
    for t in t {
        match t {
            Tok::Decl => s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"),
            Tok::Start { name, attrs, empty } => {
                s.push('<');
                s.push_str(name);
                for (k, v) in attrs {
                    s.push_str(&format!(" {k}=\"{}\"", esc(v, true)));
                }
                s.push_str(if *empty { "/>" } else { ">" });
            }
            Tok::End(n) => s.push_str(&format!("</{n}>")),
            Tok::Text(x) => s.push_str(&esc(x, false)),
            Tok::Other(x) => s.push_str(x),
        }
    }
    s
}

fn start(n: &str) -> Tok {
    Tok::Start { name: n.into(), attrs: vec![], empty: false }
}

/// The end of the subtree that starts at `i`.
fn end_of(t: &[Tok], i: usize) -> usize {
    let mut d = 0;
    for (j, x) in t.iter().enumerate().skip(i) {
        match x {
            Tok::Start { empty, .. } => {
                if !empty {
                    d += 1;
                }
            }
            Tok::End(_) => d -= 1,
            _ => {}
        }
        if d <= 0 {
            return j + 1;
        }
    }
    t.len()
}

/// Changes to the tokens of a part. Says what was done and whether the structure is broken inside the body.
fn rework(t: &mut Vec<Tok>, r: &mut Rng, main: bool) -> (String, bool) {
    if t.is_empty() {
        return ("nothing".into(), false);
    }
    let any = |r: &mut Rng, t: &Vec<Tok>, f: &dyn Fn(&Tok) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..t.len()).filter(|i| f(&t[*i])).collect();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    };
    let is_start = |x: &Tok| matches!(x, Tok::Start { .. });
    let has_attr = |x: &Tok| matches!(x, Tok::Start { attrs, .. } if !attrs.is_empty());
    // between <w:body> and </w:body>
    let body = |t: &Vec<Tok>| {
        let a = t.iter().position(|x| matches!(x, Tok::Start { name, empty, .. } if name == "w:body" && !empty));
        let b = t.iter().rposition(|x| matches!(x, Tok::End(n) if n == "w:body"));
        match (a, b) {
            (Some(a), Some(b)) if main => a..b,
            _ => 0..0,
        }
    };
    match r.below(19) {
        0 | 1 => {
            let Some(i) = any(r, t, &has_attr) else { return ("nothing".into(), false) };
            if let Tok::Start { attrs, name, .. } = &mut t[i] {
                let j = r.us(attrs.len());
                let (k, _) = attrs.remove(j);
                return (format!("{k} of {name} removed"), false);
            }
            unreachable!()
        }
        2..=5 => {
            let Some(i) = any(r, t, &has_attr) else { return ("nothing".into(), false) };
            let v = if r.one_in(30) { "9".repeat(70_000) } else { r.pick(VALUES).to_string() };
            if let Tok::Start { attrs, name, .. } = &mut t[i] {
                let j = r.us(attrs.len());
                let d = format!("{} of {name} is {:.60}", attrs[j].0, v);
                attrs[j].1 = v;
                return (d, false);
            }
            unreachable!()
        }
        6 => {
            let Some(i) = any(r, t, &is_start) else { return ("nothing".into(), false) };
            let e = end_of(t, i);
            t.drain(i..e);
            ("an element removed".into(), false)
        }
        7 => {
            let Some(i) = any(r, t, &is_start) else { return ("nothing".into(), false) };
            let e = end_of(t, i);
            let sub: Vec<Tok> = t[i..e].to_vec();
            let n = if sub.len() < 50 && r.one_in(8) { 300 } else { 1 };
            let at = r.us(t.len());
            for _ in 0..n {
                for (k, x) in sub.iter().enumerate() {
                    t.insert(at + k, x.clone());
                }
            }
            (format!("an element of {} tokens copied {n} times to another place", sub.len()), false)
        }
        8 => {
            let Some(i) = any(r, t, &is_start) else { return ("nothing".into(), false) };
            let e = end_of(t, i);
            let n = *r.pick(NAMES);
            let mut d = String::new();
            if let Tok::Start { name, .. } = &mut t[i] {
                d = format!("{name} called {n}");
                *name = n.into();
            }
            if e > i + 1 {
                if let Tok::End(x) = &mut t[e - 1] {
                    *x = n.into();
                }
            }
            (d, false)
        }
        9 => {
            let c = *r.pick(CHAINS);
            let depth = *r.pick(&[3, 40, 84, 127, 128, 129, 200, 240, 250, 256, 257, 300, 1000, 20_000]);
            let close = r.pct(80);
            let b = body(t);
            let at = if b.is_empty() || r.one_in(4) { 1 + r.us(t.len().max(2) - 1) } else { b.start + 1 };
            let mut v: Vec<Tok> = (0..depth).map(|i| start(c[i % c.len()])).collect();
            if r.flip() {
                v.push(start("w:r"));
                v.push(start("w:t"));
                v.push(Tok::Text("deep".into()));
                v.push(Tok::End("w:t".into()));
                v.push(Tok::End("w:r".into()));
            }
            if close {
                v.extend((0..depth).rev().map(|i| Tok::End(c[i % c.len()].into())));
            }
            let at = at.min(t.len());
            let refuse = !close && b.contains(&at) && at > b.start;
            t.splice(at..at, v);
            (format!("{depth} levels of {c:?}, {}", if close { "closed" } else { "left open" }), refuse)
        }
        10 | 11 => {
            let b = body(t);
            let f = |x: &Tok| matches!(x, Tok::End(_));
            let v: Vec<usize> = (0..t.len()).filter(|i| f(&t[*i]) && (b.is_empty() || b.contains(i))).collect();
            if v.is_empty() {
                return ("nothing".into(), false);
            }
            let i = *r.pick(&v);
            t.remove(i);
            ("an end tag removed".into(), b.contains(&i))
        }
        12 => {
            let b = body(t);
            let at = if b.is_empty() { r.us(t.len()) } else { b.start + 1 + r.us(b.len()) };
            t.insert(at, Tok::End(r.pick(NAMES).to_string()));
            ("an end tag too many".into(), b.contains(&at))
        }
        13 => {
            let b = body(t);
            let at = if b.is_empty() { r.us(t.len()) } else { b.start + r.us(b.len()) };
            t.truncate(at.max(1));
            ("cut between tokens".into(), !b.is_empty())
        }
        14 => {
            let Some(i) = any(r, t, &is_start) else { return ("nothing".into(), false) };
            let n = *r.pick(NAMES);
            let attrs = (0..r.us(4))
                .map(|_| (r.pick(&["w:val", "w:id", "r:id", "w:type", "w:w", "w:name", "w:author", "w:fill", "w:start", "r:embed"]).to_string(), r.pick(VALUES).to_string()))
                .collect();
            t.insert(i + 1, Tok::Start { name: n.into(), attrs, empty: true });
            (format!("{n} added"), false)
        }
        15 => {
            let f = |x: &Tok| matches!(x, Tok::Text(_));
            let Some(i) = any(r, t, &f) else { return ("nothing".into(), false) };
            t[i] = match r.below(4) {
                0 => Tok::Text("x".repeat(300_000)),
                1 => Tok::Text(String::new()),
                2 => Tok::Text(r.pick(VALUES).to_string()),
                _ => Tok::Text(" \n\t ".into()),
            };
            ("a text replaced".into(), false)
        }
        16 => {
            let i = r.us(t.len());
            let x = *r.pick(&[
                "<![CDATA[ x ]]>", "<!-- x -->", "<?x y?>", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "&a;", "&#0;", "&#x110000;", "&#xD800;", "&", "<", ">",
                "]]>", "<!--", "<![CDATA[", "\u{0}", "\u{fffe}", "<w:p", "<w:p w:x", "<w:p w:x=", "<w:p w:x='", "</>", "<>", "<a:b:c/>", "<:x/>", "<x:/>",
            ]);
            t.insert(i, Tok::Other(x.into()));
            (format!("{x:?} put in"), false)
        }
        17 => {
            // everything inside an element goes up to its parent
            let Some(i) = any(r, t, &is_start) else { return ("nothing".into(), false) };
            let e = end_of(t, i);
            if e > i + 1 {
                t.remove(e - 1);
                t.remove(i);
            }
            ("an element dissolved".into(), false)
        }
        _ => {
            let (Some(i), Some(j)) = (any(r, t, &is_start), any(r, t, &is_start)) else { return ("nothing".into(), false) };
            let e = end_of(t, i);
            let n = if let Tok::Start { name, .. } = &t[j] { name.clone() } else { String::new() };
            t.insert(e, Tok::End(n.clone()));
            t.insert(i, start(&n));
            (format!("an element put into {n}"), false)
        }
    }
}

fn scramble(b: &mut Vec<u8>, r: &mut Rng) -> String {
    if b.is_empty() {
        return "nothing".into();
    }
    let n = 1 + r.us(3);
    let mut d = String::new();
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let i = r.us(b.len());
        match r.below(6) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.next() as u8,
            2 => {
                b.insert(i, *r.pick(b"<>&\"'/ =\x00\xff\xef;:[]!-?"));
            }
            3 => {
                let e = (i + 1 + r.us(40)).min(b.len());
                b.drain(i..e);
            }
            4 => {
                let e = (i + 1 + r.us(200)).min(b.len());
                let c = b[i..e].to_vec();
                let at = r.us(b.len());
                b.splice(at..at, c);
            }
            _ => b.truncate(i),
        }
        d = format!("bytes changed near {i}");
    }
    d
}

fn put_u16(b: &mut [u8], at: usize, v: u16) {
    if let Some(x) = b.get_mut(at..at + 2) {
        x.copy_from_slice(&v.to_le_bytes());
    }
}

fn put_u32(b: &mut [u8], at: usize, v: u32) {
    if let Some(x) = b.get_mut(at..at + 4) {
        x.copy_from_slice(&v.to_le_bytes());
    }
}

fn find_all(b: &[u8], m: &[u8]) -> Vec<usize> {
    (0..b.len().saturating_sub(m.len())).filter(|i| b[*i..].starts_with(m)).collect()
}

/// Changes to the archive itself.
fn rezip(b: &mut Vec<u8>, r: &mut Rng) -> String {
    let central = find_all(b, b"PK\x01\x02");
    let local = find_all(b, b"PK\x03\x04");
    let end = find_all(b, b"PK\x05\x06");
    let big = |r: &mut Rng| *r.pick(&[0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 1 << 20, 1 << 28]);
    match r.below(10) {
        0 if !central.is_empty() => {
            let c = *r.pick(&central);
            let o = *r.pick(&[16usize, 20, 24, 42]);
            let v = big(r);
            put_u32(b, c + o, v);
            format!("directory field {o} is {v}")
        }
        1 if !local.is_empty() => {
            let c = *r.pick(&local);
            let o = *r.pick(&[14usize, 18, 22]);
            let v = big(r);
            put_u32(b, c + o, v);
            format!("header field {o} is {v}")
        }
        2 if !central.is_empty() => {
            let c = *r.pick(&central);
            let o = *r.pick(&[4usize, 6, 8, 10, 28, 30, 32, 34, 36]);
            let v = *r.pick(&[0u16, 1, 2, 8, 9, 12, 14, 93, 95, 99, 0x800, 0xffff, 0x7fff]);
            put_u16(b, c + o, v);
            format!("directory field {o} is {v}")
        }
        3 if !local.is_empty() => {
            let c = *r.pick(&local);
            let o = *r.pick(&[4usize, 6, 8, 26, 28]);
            let v = *r.pick(&[0u16, 1, 8, 0x800, 0xffff, 0x7fff]);
            put_u16(b, c + o, v);
            format!("header field {o} is {v}")
        }
        4 if !end.is_empty() => {
            let c = *r.pick(&end);
            let o = *r.pick(&[4usize, 6, 8, 10, 20]);
            let v = *r.pick(&[0u16, 1, 5, 0xffff, 0x7fff]);
            put_u16(b, c + o, v);
            format!("end field {o} is {v}")
        }
        5 if !end.is_empty() => {
            let c = *r.pick(&end);
            let o = *r.pick(&[12usize, 16]);
            let v = big(r);
            put_u32(b, c + o, v);
            format!("end field {o} is {v}")
        }
        6 => {
            let i = r.us(b.len().max(1));
            b.truncate(i);
            format!("archive cut at {i}")
        }
        7 => {
            let i = r.us(b.len().max(1));
            b.drain(..i);
            format!("archive without its first {i} bytes")
        }
        _ => {
            let n = 1 + r.us(3);
            let mut d = vec![];
            for _ in 0..n {
                let i = r.us(b.len());
                b[i] ^= 1 << r.below(8);
                d.push(i);
            }
            format!("bits flipped at {d:?}")
        }
    }
}

fn texts_of(d: &Docx) -> Vec<String> {
    fn go(v: &Value, out: &mut Vec<String>) {
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    if k == "text" {
                        if let Some(s) = x.as_str() {
                            out.push(s.to_string());
                            continue;
                        }
                    }
                    // comments, headers and footers come from other parts
                    if !matches!(k.as_str(), "comment" | "header" | "footer" | "firstHeader" | "firstFooter" | "evenHeader" | "evenFooter") {
                        go(x, out);
                    }
                }
            }
            Value::Array(a) => a.iter().for_each(|x| go(x, out)),
            _ => {}
        }
    }
    let mut out = vec![];
    go(&serde_json::to_value(&d.document).unwrap_or(Value::Null), &mut out);
    out
}

fn total(p: &Package) -> u64 {
    p.parts.values().map(|v| v.len() as u64).sum()
}

/// A picture that claims a size.
fn claim(r: &mut Rng) -> (String, Vec<u8>) {
    // either small or far above what decoders allow themselves (512 MiB)
    let (big, big2) = *r.pick(&[(1u32, 1u32), (0, 7), (300, 2000), (2000, 1), (60_000, 60_000), (30_001, 30_003), (0x7fff_ffff, 2), (0xffff_ffff, 0xffff_ffff), (0x8000_0000, 0x8000_0000)]);
    let mut b;
    match r.below(3) {
        0 => {
            b = b"BM".to_vec();
            b.extend([0u8; 8]);
            b.extend(54u32.to_le_bytes());
            b.extend(40u32.to_le_bytes());
            b.extend(big.to_le_bytes());
            b.extend(big2.to_le_bytes());
            b.extend(1u16.to_le_bytes());
            b.extend(24u16.to_le_bytes());
            b.extend([0u8; 24]);
            b.extend([9u8; 50]);
        }
        1 => {
            b = b"GIF89a".to_vec();
            b.extend((big as u16).to_le_bytes());
            b.extend((big2 as u16).to_le_bytes());
            b.extend([0x80, 0, 0, 0, 0, 0, 255, 255, 255, 0x2c, 0, 0, 0, 0]);
            b.extend((big as u16).to_le_bytes());
            b.extend((big2 as u16).to_le_bytes());
            b.extend([0, 2, 2, 0x4c, 1, 0, 0x3b]);
        }
        _ => {
            b = crate::gen::png(3, 2, 2);
            b[16..20].copy_from_slice(&big.to_be_bytes());
            b[20..24].copy_from_slice(&big2.to_be_bytes());
            let c = crc32fast::hash(&b[12..29]);
            b[29..33].copy_from_slice(&c.to_be_bytes());
        }
    }
    (format!("a picture that claims {big} by {big2}"), b)
}

fn make(r: &mut Rng, p: &Package, texts: &Option<Vec<String>>) -> Input {
    let main = p.main_part().unwrap_or_else(|_| "word/document.xml".into());
    let mut q = p.clone();
    let mut what: String;
    let mut refuse = false;
    let xml: Vec<String> = q.order.iter().filter(|n| Package::is_xml(n)).cloned().collect();
    match r.below(12) {
        // tokens of one or two parts
        0..=4 => {
            let mut names = vec![];
            what = String::new();
            let one = r.below(3) > 0;
            for _ in 0..1 + r.us(2) {
                let n = if r.flip() { main.clone() } else { r.pick(&xml).clone() };
                if one && !names.is_empty() && !names.contains(&n) {
                    continue;
                }
                let mut t = match std::str::from_utf8(&q.parts[&n]) {
                    Ok(s) if names.is_empty() || !names.contains(&n) => spell::tokens(s),
                    _ => continue,
                };
                let steps = if r.flip() { 1 } else { 1 + r.us(6) };
                for i in 0..steps {
                    let (d, x) = rework(&mut t, r, n == main);
                    what += &format!("{n}: {d}; ");
                    // further changes could undo it
                    if x && i == 0 && steps == 1 {
                        refuse = true;
                    }
                }
                q.parts.insert(n.clone(), write_toks(&t).into_bytes());
                names.push(n);
            }
        }
        // bytes of a part
        5 | 6 => {
            let n = if r.flip() { main.clone() } else { r.pick(&q.order.clone()).clone() };
            let b = q.parts.get_mut(&n).unwrap();
            let end = b.iter().rposition(|c| !c.is_ascii_whitespace()).unwrap_or(0);
            if n == main && r.flip() && b[..end].ends_with(b":document") {
                let cut = if r.one_in(8) { r.us(200.min(end)) } else { r.us(end + 1) };
                b.truncate(cut);
                refuse = true;
                what = format!("{n} cut at {cut}");
            } else {
                what = format!("{n}: {}", scramble(b, r));
            }
        }
        // parts
        7 => {
            let n = r.pick(&q.order.clone()).clone();
            match r.below(7) {
                0 => {
                    q.order.retain(|x| *x != n);
                    q.parts.remove(&n);
                    what = format!("{n} left out");
                }
                1 => {
                    q.parts.insert(n.clone(), vec![]);
                    what = format!("{n} empty");
                }
                2 => {
                    let m = r.pick(&q.order.clone()).clone();
                    let (a, b) = (q.parts[&n].clone(), q.parts[&m].clone());
                    q.parts.insert(n.clone(), b);
                    q.parts.insert(m.clone(), a);
                    what = format!("{n} and {m} exchanged");
                }
                3 => {
                    let s = String::from_utf8_lossy(&q.parts[&n]).into_owned();
                    let mut b = vec![];
                    let le = r.flip();
                    b.extend(if le { [0xff, 0xfe] } else { [0xfe, 0xff] });
                    for u in s.encode_utf16() {
                        b.extend(if le { u.to_le_bytes() } else { u.to_be_bytes() });
                    }
                    q.parts.insert(n.clone(), b);
                    what = format!("{n} in UTF-16");
                }
                4 => {
                    let n2: String = r.pick(VALUES).chars().filter(|c| *c != '\0').collect();
                    let n2 = format!("{n2}{}", r.pick(&["", "x", "/x.xml"]));
                    if !n2.is_empty() && !q.parts.contains_key(&n2) {
                        let v = q.parts.remove(&n).unwrap();
                        q.order.retain(|x| *x != n);
                        q.order.push(n2.clone());
                        q.parts.insert(n2.clone(), v);
                    }
                    what = format!("{n} called {n2:?}");
                }
                5 => {
                    // everything of a kind leads to the main part, or to itself
                    let rels: Vec<String> = q.order.iter().filter(|x| x.ends_with(".rels")).cloned().collect();
                    let n = r.pick(&rels).clone();
                    let t = r.pick(&["document.xml", "/word/document.xml", "_rels/document.xml.rels", "", "..", "/", "styles.xml", "a\\b", "%2e%2e/x", "\u{0}"]).to_string();
                    let s = String::from_utf8_lossy(&q.parts[&n]).into_owned();
                    let mut toks = spell::tokens(&s);
                    for x in toks.iter_mut() {
                        if let Tok::Start { attrs, .. } = x {
                            for a in attrs {
                                if a.0 == "Target" && r.flip() {
                                    a.1 = t.clone();
                                }
                            }
                        }
                    }
                    q.parts.insert(n.clone(), write_toks(&toks).into_bytes());
                    what = format!("{n} leads to {t:?}");
                }
                _ => {
                    let media: Vec<String> = q.order.iter().filter(|x| x.contains("media/")).cloned().collect();
                    let (d, b) = claim(r);
                    if media.is_empty() {
                        q.order.push("word/media/huge.bmp".into());
                        q.parts.insert("word/media/huge.bmp".into(), b);
                        let rn = pkg::rels_name(&main);
                        if let Some(v) = q.parts.get_mut(&rn) {
                            let s = String::from_utf8_lossy(v).replace(
                                "</Relationships>",
                                "<Relationship Id=\"rIdHuge\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/image\" Target=\"media/huge.bmp\"/></Relationships>",
                            );
                            *v = s.into_bytes();
                        }
                    } else {
                        let n = r.pick(&media).clone();
                        q.parts.insert(n, b);
                    }
                    what = d;
                }
            }
        }
        // the archive
        8 | 9 => {
            let mut b = pkg::zip(&q, if r.flip() { Some(r) } else { None });
            let size = total(&q) + b.len() as u64;
            let what = rezip(&mut b, r);
            return Input { what, data: Data::Zip(b), size, refuse: false, texts: texts.clone() };
        }
        // the flat form
        10 => {
            let s = reads::flat_as(&q, p.content_types(), r);
            let mut b = s.into_bytes();
            what = if r.one_in(4) {
                let mut i = r.us(b.len());
                while i > 0 && (b[i] & 0xc0) == 0x80 {
                    i -= 1;
                }
                b.truncate(i);
                format!("flat form cut at {i}")
            } else {
                scramble(&mut b, r)
            };
            let s = String::from_utf8_lossy(&b).into_owned();
            return Input { what: format!("flat: {what}"), size: s.len() as u64, data: Data::Flat(s), refuse: false, texts: None };
        }
        // no package at all
        _ => {
            let n = r.us(3000);
            let b: Vec<u8> = match r.below(3) {
                0 => (0..n).map(|_| r.next() as u8).collect(),
                1 => {
                    let mut b = b"PK\x03\x04".to_vec();
                    b.extend((0..n).map(|_| r.next() as u8));
                    b
                }
                _ => {
                    let mut s = String::new();
                    for _ in 0..n / 10 {
                        match r.below(4) {
                            0 => s += &format!("<{}", r.pick(NAMES)),
                            1 => s += &format!("</{}>", r.pick(NAMES)),
                            2 => s += *r.pick(VALUES),
                            _ => s += *r.pick(&[">", "/>", "<pkg:part", " pkg:name=\"", "\"", "<pkg:xmlData>", "</pkg:xmlData>", "</pkg:part>", "=", " w:val=\"1\""]),
                        }
                    }
                    s.into_bytes()
                }
            };
            if r.one_in(3) {
                let s = String::from_utf8_lossy(&b).into_owned();
                return Input { what: "not a flat package".into(), size: s.len() as u64, data: Data::Flat(s), refuse: false, texts: None };
            }
            let size = b.len() as u64;
            let data = if r.flip() { Data::Part(b) } else { Data::Zip(b) };
            return Input { what: "not a package".into(), data, size, refuse: false, texts: None };
        }
    }
    let size = total(&q);
    match r.below(10) {
        0 => {
            let n = r.pick(&q.order.clone()).clone();
            Input { what: format!("{what} (the part {n} alone)"), size, data: Data::Part(q.parts[&n].clone()), refuse: false, texts: None }
        }
        1 => {
            // the flat form finds its parts by their tags
            let s = reads::flat_as(&q, p.content_types(), r);
            Input { what: format!("{what} (flat)"), size: s.len() as u64, data: Data::Flat(s), refuse: refuse && !what.contains("pkg:"), texts: None }
        }
        _ => {
            let b = pkg::zip(&q, None);
            let size = size + b.len() as u64;
            Input { what, data: Data::Zip(b), size, refuse, texts: None }
        }
    }
}

/// Reads an input in all the ways it can be, and uses the result.
fn feed(i: &Input, r: &mut Rng, seen: &mut Seen) -> Out {
    let use_it = |d: Docx, r: &mut Rng| -> Out {
        let way = r.below(4);
        // there is no writer for text boxes and shapes (known findings of C05)
        if way < 3 {
            let j = d.json();
            if j.contains("\"type\": \"textBox\"") || j.contains("\"type\": \"shape\"") {
                return Ok(());
            }
        }
        match way {
            1 => {
                let mut b = std::io::Cursor::new(vec![]);
                let _ = d.pack(&mut b);
            }
            2 => {
                let mut b = std::io::Cursor::new(vec![]);
                let _ = d.build().pack(&mut b);
            }
            _ => {}
        }
        Ok(())
    };
    match &i.data {
        Data::Zip(b) => {
            let x = if r.one_in(4) {
                read_docx_with_options(b, ReadDocxOptions::default().with_image_previews(false))
            } else {
                read_docx(b)
            };
            match x {
                Ok(d) => {
                    seen.read += 1;
                    if i.refuse {
                        return Err("the damaged main part was accepted".into());
                    }
                    if let Some(t) = &i.texts {
                        let got = texts_of(&d);
                        if *t != got {
                            return Err(format!("the damaged archive was read as a document with {} texts instead of {}", got.len(), t.len()));
                        }
                        seen.same += 1;
                    }
                    use_it(d, r)?;
                }
                Err(e) => {
                    seen.refused += 1;
                    *seen.errors.entry(format!("{e:?}").split(['(', ' ', '{']).next().unwrap_or("").to_string()).or_default() += 1;
                    if i.refuse {
                        seen.damage += 1;
                    }
                }
            }
        }
        Data::Flat(s) => match read_xml(s) {
            Ok(d) => {
                seen.read += 1;
                if i.refuse {
                    return Err("the damaged main part was accepted".into());
                }
                use_it(d, r)?;
            }
            Err(_) => {
                seen.refused += 1;
                if i.refuse {
                    seen.damage += 1;
                }
            }
        },
        Data::Part(b) => {
            let ok = [
                Document::from_xml(&b[..]).is_ok(),
                Styles::from_xml(&b[..]).is_ok(),
                Numberings::from_xml(&b[..]).is_ok(),
                Settings::from_xml(&b[..]).is_ok(),
                WebSettings::from_xml(&b[..]).is_ok(),
                Comments::from_xml(&b[..]).is_ok(),
                CommentsExtended::from_xml(&b[..]).is_ok(),
                Header::from_xml(&b[..]).is_ok(),
                Footer::from_xml(&b[..]).is_ok(),
                Theme::from_xml(&b[..]).is_ok(),
                Rels::from_xml(&b[..]).is_ok(),
                ContentTypes::from_xml(&b[..]).is_ok(),
                CustomProps::from_xml(&b[..]).is_ok(),
            ];
            seen.parts += 1;
            if ok.iter().any(|x| *x) {
                seen.read += 1;
            } else {
                seen.refused += 1;
            }
        }
    }
    Ok(())
}

#[derive(Default)]
struct Seen {
    read: u64,
    refused: u64,
    damage: u64,
    same: u64,
    parts: u64,
    peak: u64,
    ratio: u64,
    errors: std::collections::BTreeMap<String, u64>,
    hashes: Vec<u64>,
}

/// Processor time of a thread of this process, in hundredths of a second.
fn ticks(tid: &str) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// The reading process: takes seeds, answers with what came of them.
pub fn serve() {
    hook_panics();
    std::thread::Builder::new()
        // the generator needs more stack than the readers may have
        .stack_size(256 << 20)
        .spawn(|| {
            for l in std::io::stdin().lock().lines() {
                let Ok(l) = l else { break };
                let Ok(seed) = l.trim().parse::<u64>() else { break };
                let answer = match guard(|| inputs(seed)) {
                    Ok(Ok((from, v))) => std::thread::scope(|s| {
                        std::thread::Builder::new()
                            .stack_size(STACK)
                            .spawn_scoped(s, || read_all(seed, &from, &v))
                            .unwrap()
                            .join()
                            .unwrap_or_else(|_| "TROUBLE panic".into())
                    }),
                    Ok(Err(e)) => format!("TROUBLE {e}"),
                    Err(Caught::Harness(e)) | Err(Caught::Library(e)) => format!("TROUBLE making inputs: {e}"),
                };
                println!("{}", answer.replace('\n', " "));
                let _ = std::io::stdout().flush();
            }
        })
        .unwrap()
        .join()
        .ok();
}

fn inputs(seed: u64) -> Result<(String, Vec<Input>), String> {
    let mut r = Rng::new(seed);
    let cfg = Cfg { max_blocks: 4, hostile: r.flip(), ..Cfg::full() };
    let (mut from, mut p) = reads::subject(seed, &mut r, cfg, 40)?;
    if from == "generated" && r.one_in(3) && !crate::graft::graft(&mut p, &mut r)?.is_empty() {
        from = "generated, with boxes and shapes".into();
    }
    let texts = read_docx(&pkg::zip(&p, None)).ok().map(|d| texts_of(&d));
    Ok((from, (0..INPUTS).map(|_| make(&mut r, &p, &texts)).collect()))
}

fn read_all(seed: u64, from: &str, v: &[Input]) -> String {
    let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default();
    let base = AtomicU64::new(u64::MAX);
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::park_timeout(std::time::Duration::from_millis(250));
                let b = base.load(Ordering::SeqCst);
                if b != u64::MAX && ticks(&tid).saturating_sub(b) > SECONDS * 100 {
                    println!("CPU");
                    std::process::abort();
                }
            }
        });
        let x = read_each(seed, from, v, &tid, &base);
        done.store(true, Ordering::SeqCst);
        h.thread().unpark();
        x
    })
}

fn read_each(seed: u64, from: &str, v: &[Input], tid: &str, base: &AtomicU64) -> String {
    let mut r = Rng::new(mix(seed));
    let mut seen = Seen::default();
    for (n, i) in v.iter().enumerate() {
        let h = match &i.data {
            Data::Zip(b) | Data::Part(b) => hash(b),
            Data::Flat(s) => hash(s.as_bytes()),
        };
        seen.hashes.push(mix(h));
        println!("AT {n} ({from}, {})", crate::view::cut(&i.what).replace('\n', " "));
        let limit = BASE_MEMORY + FACTOR * i.size;
        base.store(ticks(tid), Ordering::SeqCst);
        alloc::reset(Some(limit));
        let x = guard(|| feed(i, &mut r, &mut seen));
        let peak = alloc::peak();
        alloc::reset(None);
        base.store(u64::MAX, Ordering::SeqCst);
        seen.peak = seen.peak.max(peak);
        seen.ratio = seen.ratio.max(peak.saturating_sub(1 << 20) / i.size.max(1));
        let e = match x {
            Ok(Ok(())) => continue,
            Ok(Err(e)) => e,
            Err(Caught::Library(e)) => e,
            Err(Caught::Harness(e)) => return format!("TROUBLE {e}"),
        };
        return format!("BAD input {n} ({from}, {}): {e}", crate::view::cut(&i.what));
    }
    format!(
        "DONE {}",
        json!({"read": seen.read, "refused": seen.refused, "damage": seen.damage, "same": seen.same, "parts": seen.parts, "peak": seen.peak, "ratio": seen.ratio, "errors": seen.errors, "hashes": seen.hashes})
    )
}

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static SERVER: std::cell::RefCell<Option<Server>> = const { std::cell::RefCell::new(None) };
}

fn c06(seed: u64, cx: &mut Ctx) -> Out {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let mut child = Command::new(std::env::current_exe().expect("own program"))
                .arg("eat")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("a reading process");
            let to = child.stdin.take().expect("stdin");
            let from = BufReader::new(child.stdout.take().expect("stdout"));
            *s = Some(Server { child, to, from });
        }
        let v = s.as_mut().expect("server");
        writeln!(v.to, "{seed}").expect("the reading process takes a seed");
        v.to.flush().expect("the reading process takes a seed");
        let mut at = String::new();
        let mut why = String::new();
        loop {
            let mut l = String::new();
            let n = v.from.read_line(&mut l).expect("the reading process answers");
            if n == 0 {
                break;
            }
            let l = l.trim_end();
            if let Some(x) = l.strip_prefix("AT ") {
                at = x.to_string();
            } else if let Some(x) = l.strip_prefix("MEM ") {
                why = format!("more than {x} bytes of memory were needed");
            } else if l == "CPU" {
                why = format!("more than {SECONDS} s of processor time were needed");
            } else if let Some(x) = l.strip_prefix("BAD ") {
                return Err(x.to_string());
            } else if let Some(x) = l.strip_prefix("TROUBLE ") {
                panic!("reading process: {x}");
            } else if let Some(x) = l.strip_prefix("DONE ") {
                let x: Value = serde_json::from_str(x).expect("an answer");
                let g = |k: &str| x[k].as_u64().unwrap_or(0);
                cx.obs.evals += INPUTS - 1;
                cx.obs.add("inputs read as documents", g("read"));
                cx.obs.add("inputs refused", g("refused"));
                cx.obs.add("damaged main parts refused", g("damage"));
                cx.obs.add("damaged archives read with the same texts", g("same"));
                cx.obs.add("parts given to every part reader", g("parts"));
                cx.obs.max("bytes of memory", g("peak"));
                cx.obs.max("bytes of memory above 1 MiB per byte of input", g("ratio"));
                for (k, n) in x["errors"].as_object().into_iter().flatten() {
                    cx.obs.add(&format!("error {k}"), n.as_u64().unwrap_or(0));
                }
                for h in x["hashes"].as_array().into_iter().flatten() {
                    cx.obs.hit(h.as_u64().unwrap_or(0));
                }
                cx.obs.sample(|| json!({"case": seed.to_string(), "last input": at}));
                return Ok(());
            }
        }
        let st = v.child.wait();
        *s = None;
        let st = st.map(|x| x.to_string()).unwrap_or_default();
        if !why.is_empty() {
            return Err(format!("input {at}: {why}"));
        }
        if st.contains("signal: 6") || st.contains("signal: 11") || st.contains("signal: 7") || st.contains("signal: 4") {
            return Err(format!("input {at}: the reading process died ({st})"));
        }
        panic!("the reading process ended: {st}");
    })
}

pub const ALL: &[Check] = &[Check {
    id: "C06",
    rule: "an input given to the readers, by its bytes",
    assumptions: &[
        "limits: 2 MiB of stack, 64 MiB of memory plus 500 bytes per byte of unpacked input, 30 s of processor time",
        "an optimised build with overflow checks and debug assertions",
    ],
    level: "exploration",
    cases: 1200,
    deep: 30,
    threads: 8,
    floor: 3000,
    case: c06,
    probes: &[],
}];
