//! What a package says: every part in reach brought into one comparable form.

use crate::gen::{image_sig, Expect};
use crate::pkg::{Package, Rel};
use crate::xml::{El, Node};
use std::collections::BTreeMap;

/// A document as its parts say it.
#[derive(Clone)]
pub struct View {
    pub body: El,
    /// by id
    pub comments: El,
    pub styles: El,
    pub defaults: El,
    pub abstracts: El,
    pub nums: El,
    pub settings: El,
    pub core: El,
    pub props: El,
    pub items: El,
    pub webext: El,
}

/// Properties that are on when present, unless their value says otherwise.
const TOGGLES: &[&str] = &[
    "w:b", "w:bCs", "w:i", "w:iCs", "w:caps", "w:smallCaps", "w:strike", "w:dstrike", "w:vanish", "w:specVanish",
    "w:webHidden", "w:outline", "w:shadow", "w:emboss", "w:imprint", "w:noProof", "w:rtl", "w:cs", "w:oMath", "w:keepNext",
    "w:keepLines", "w:pageBreakBefore", "w:widowControl", "w:bidi", "w:snapToGrid", "w:cantSplit", "w:tblHeader",
    "w:titlePg", "w:isLgl", "w:qFormat", "w:semiHidden", "w:unhideWhenUsed", "w:evenAndOddHeaders",
    "w:adjustLineHeightInTable", "w:adjustRightInd", "w:contextualSpacing",
];

/// Elements whose children are a set of properties.
const BAGS: &[&str] = &[
    "w:rPr", "w:pPr", "w:tblPr", "w:trPr", "w:tcPr", "w:sectPr", "w:pBdr", "w:tblBorders", "w:tcBorders", "w:tcMar",
    "w:tblCellMar", "w:numPr", "w:sdtPr", "w:lvl", "w:style", "w:lvlOverride", "w:settings", "w:compat",
];

/// Elements that say nothing when they are empty.
const EMPTY: &[&str] = &[
    "w:rPr", "w:pPr", "w:tblPr", "w:trPr", "w:tcPr", "w:pBdr", "w:tblBorders", "w:tcBorders", "w:tcMar", "w:tblCellMar",
    "w:sdtPr", "w:r", "w:t", "w:delText", "w:tabs", "w:tblGrid", "w:docVars", "w:sdtContent", "we:properties",
    "w:instrText", "w:delInstrText",
];

const GENERATED: &[&str] = &["w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:pPrChange", "w:rPrChange"];

#[derive(Clone, Copy)]
pub struct Canon {
    pub para_ids: bool,
}

pub fn canon(e: &mut El, c: Canon) {
    let n = e.name.clone();
    // attributes
    e.attrs.retain(|(k, v)| {
        !(k.starts_with("w:rsid") || k == "w14:textId" || k == "xml:space" || (!c.para_ids && k == "w14:paraId"))
            && !(k == "w:id" && GENERATED.contains(&n.as_str()))
            && !(k == "w:initials")
            && !(k == "w:history" && v == "1" && n == "w:hyperlink")
    });
    if TOGGLES.contains(&n.as_str()) {
        let on = match e.attr("w:val") {
            None => true,
            Some(v) => !matches!(v, "false" | "0" | "off"),
        };
        e.attrs.retain(|(k, _)| k != "w:val");
        if !on {
            e.attrs.push(("w:val".into(), "false".into()));
        }
    }
    if n == "w:fldChar" {
        let dirty = matches!(e.attr("w:dirty"), Some("true" | "1" | "on"));
        e.attrs.retain(|(k, _)| k != "w:dirty");
        if dirty {
            e.attrs.push(("w:dirty".into(), "true".into()));
        }
    }
    e.attrs.sort();
    // text
    let texty = matches!(n.as_str(), "w:t" | "w:delText" | "w:instrText" | "w:delInstrText") || !n.starts_with("w:");
    let mut kids: Vec<Node> = vec![];
    for k in std::mem::take(&mut e.kids) {
        match k {
            Node::T(s) => {
                if texty {
                    if let Some(Node::T(p)) = kids.last_mut() {
                        p.push_str(&s);
                    } else {
                        kids.push(Node::T(s));
                    }
                } else if !s.trim().is_empty() {
                    kids.push(Node::T(s));
                }
            }
            Node::E(mut x) => {
                canon(&mut x, c);
                if EMPTY.contains(&x.name.as_str()) && x.kids.is_empty() && x.attrs.is_empty() {
                    continue;
                }
                kids.push(Node::E(x));
            }
        }
    }
    kids.retain(|k| !matches!(k, Node::T(s) if s.is_empty()));
    if BAGS.contains(&n.as_str()) {
        kids.sort_by_cached_key(|k| match k {
            Node::E(e) => (e.name.clone(), e.flat()),
            Node::T(s) => (String::new(), s.clone()),
        });
    }
    e.kids = kids;
}

/// Text is trimmed where nothing asks for its blanks to be kept.
fn trim_unpreserved(e: &mut El, keep: bool) {
    let keep = match e.attr("xml:space") {
        Some("preserve") => true,
        Some(_) => false,
        None => keep,
    };
    let t = matches!(e.name.as_str(), "w:t" | "w:delText" | "w:instrText" | "w:delInstrText");
    for k in e.kids.iter_mut() {
        match k {
            Node::T(s) => {
                if t && !keep {
                    *s = s.trim_matches([' ', '\t', '\n', '\r']).to_string();
                }
            }
            Node::E(x) => trim_unpreserved(x, keep),
        }
    }
}

struct Ctx<'a> {
    p: &'a Package,
    notes: BTreeMap<String, El>,
    notes_part: String,
}

fn desc<'a>(e: &'a El, name: &str) -> Option<&'a El> {
    let mut found = None;
    e.walk(|x| {
        if found.is_none() && x.name == name {
            found = Some(x);
        }
    });
    found
}

fn drawing(e: &El, p: &Package, rels: &[Rel]) -> Option<El> {
    let frame = e.els().find(|x| x.name == "wp:inline" || x.name == "wp:anchor")?;
    let blip = desc(frame, "a:blip")?;
    let id = blip.attr("r:embed")?;
    let img = match rels.iter().find(|r| r.id == id) {
        Some(r) => match p.parts.get(&r.part) {
            Some(b) => image_sig(b),
            None => format!("missing part {}", r.part),
        },
        None => format!("dangling {id}"),
    };
    let ext = frame.find("wp:extent")?;
    let mut o = El::new("w:drawing")
        .a("img", img)
        .a("cx", ext.attr("cx").unwrap_or("?"))
        .a("cy", ext.attr("cy").unwrap_or("?"));
    if let Some(x) = desc(frame, "a:xfrm") {
        if let Some(rot) = x.attr("rot") {
            if rot != "0" {
                o = o.a("rot", rot);
            }
        }
        if let Some(y) = x.find("a:ext") {
            if y.attr("cx") != ext.attr("cx") || y.attr("cy") != ext.attr("cy") {
                o = o.a("inner", format!("{:?}x{:?}", y.attr("cx"), y.attr("cy")));
            }
        }
    }
    let g = |n: &str| frame.attr(n).unwrap_or("0").to_string();
    o = o.a("dist", format!("{},{},{},{}", g("distT"), g("distB"), g("distL"), g("distR")));
    if frame.name == "wp:anchor" {
        let pos = |n: &str| {
            frame.find(n).map(|x| {
                let what = if let Some(a) = x.find("wp:posOffset") {
                    format!("offset {}", a.text())
                } else if let Some(a) = x.find("wp:align") {
                    format!("align {}", a.text())
                } else {
                    "?".into()
                };
                format!("{} {}", x.attr("relativeFrom").unwrap_or("?"), what)
            })
        };
        o = o
            .a("kind", "anchor")
            .a("overlap", g("allowOverlap"))
            .opt("h", pos("wp:positionH"))
            .opt("v", pos("wp:positionV"))
            .a("z", g("relativeHeight"))
            .a("simple", g("simplePos"));
    } else {
        o = o.a("kind", "inline");
    }
    Some(o)
}

impl<'a> Ctx<'a> {
    fn resolve(&self, e: &mut El, part: &str, rels: &[Rel]) -> Result<(), String> {
        if e.name == "w:drawing" {
            if let Some(o) = drawing(e, self.p, rels) {
                *e = o;
                return Ok(());
            }
        }
        match e.name.as_str() {
            "w:hyperlink" => {
                if let Some(id) = e.attr("r:id").map(String::from) {
                    let url = match rels.iter().find(|r| r.id == id) {
                        Some(r) => r.target.clone(),
                        None => format!("dangling {id} in {part}"),
                    };
                    e.attrs.retain(|(k, _)| k != "r:id");
                    e.attrs.push(("url".into(), url));
                }
            }
            "w:headerReference" | "w:footerReference" => {
                let id = e.attr("r:id").unwrap_or("").to_string();
                e.attrs.retain(|(k, _)| k != "r:id");
                match rels.iter().find(|r| r.id == id) {
                    Some(r) => {
                        let mut x = self.p.xml(&r.part)?;
                        let rr = self.p.rels(&r.part)?;
                        trim_unpreserved(&mut x, false);
                        self.resolve(&mut x, &r.part, &rr)?;
                        e.kids = std::mem::take(&mut x.kids);
                    }
                    None => e.attrs.push(("dangling".into(), id)),
                }
                return Ok(());
            }
            "w:footnoteReference" => {
                let id = e.attr("w:id").unwrap_or("").to_string();
                e.attrs.clear();
                match self.notes.get(&id) {
                    Some(x) => {
                        let mut x = x.clone();
                        let rr = self.p.rels(&self.notes_part)?;
                        self.resolve(&mut x, &self.notes_part, &rr)?;
                        e.kids = std::mem::take(&mut x.kids);
                    }
                    None => e.attrs.push(("dangling".into(), id)),
                }
                return Ok(());
            }
            _ => {}
        }
        for k in e.kids.iter_mut() {
            if let Node::E(x) = k {
                self.resolve(x, part, rels)?;
            }
        }
        Ok(())
    }
}

pub fn view(p: &Package, c: Canon) -> Result<View, String> {
    let main = p.main_part()?;
    let rels = p.rels(&main)?;
    let notes_part = p.related(&main, "footnotes")?.unwrap_or_default();
    let mut notes = BTreeMap::new();
    if !notes_part.is_empty() {
        let mut x = p.xml(&notes_part)?;
        trim_unpreserved(&mut x, false);
        for f in x.all("w:footnote") {
            if f.attr("w:type").is_none() {
                let id = f.attr("w:id").unwrap_or("").to_string();
                if notes.insert(id.clone(), f.clone()).is_some() {
                    return Err(format!("two footnotes with id {id}"));
                }
            }
        }
    }
    let ctx = Ctx { p, notes, notes_part };
    let mut doc = p.xml(&main)?;
    trim_unpreserved(&mut doc, false);
    ctx.resolve(&mut doc, &main, &rels)?;
    let mut body = doc.find("w:body").cloned().ok_or("no body")?;
    canon(&mut body, c);

    // comments with their parents
    let mut comments = El::new("comments");
    if let Some(part) = p.related(&main, "comments")? {
        let mut x = p.xml(&part)?;
        trim_unpreserved(&mut x, false);
        let mut parent_of: BTreeMap<String, String> = BTreeMap::new();
        if let Some(ep) = p.related(&main, "commentsExtended")? {
            for c in p.xml(&ep)?.els() {
                if let (Some(a), Some(b)) = (c.attr("w15:paraId"), c.attr("w15:paraIdParent")) {
                    parent_of.insert(a.to_uppercase(), b.to_uppercase());
                }
            }
        }
        // a comment is known by its last paragraph
        let mut by_para: BTreeMap<String, String> = BTreeMap::new();
        let mut paras: Vec<(String, Vec<String>)> = vec![];
        for cm in x.all("w:comment") {
            let id = cm.attr("w:id").unwrap_or("").to_string();
            let mut ps = vec![];
            cm.walk(|e| {
                if e.name == "w:p" {
                    if let Some(a) = e.attr("w14:paraId") {
                        ps.push(a.to_uppercase());
                    }
                }
            });
            if let Some(q) = ps.last() {
                by_para.insert(q.clone(), id.clone());
            }
            paras.push((id, ps));
        }
        let rr = p.rels(&part)?;
        let mut list = vec![];
        for (i, cm) in x.all("w:comment").enumerate() {
            let mut cm = cm.clone();
            ctx.resolve(&mut cm, &part, &rr)?;
            for q in &paras[i].1 {
                if let Some(par) = parent_of.get(q) {
                    let id = by_para.get(par).cloned().unwrap_or("not the last paragraph of a comment".into());
                    if !cm.attrs.iter().any(|a| a.0 == "parent" && a.1 == id) {
                        cm.attrs.push(("parent".into(), id));
                    }
                }
            }
            list.push(cm);
        }
        list.sort_by_key(|c| c.attr("w:id").and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX));
        comments = comments.ks(list);
    }
    canon(&mut comments, c);

    let mut styles = El::new("styles");
    let mut defaults = El::new("defaults");
    if let Some(part) = p.related(&main, "styles")? {
        let x = p.xml(&part)?;
        for s in x.all("w:style") {
            styles.push(s.clone());
        }
        if let Some(d) = x.find("w:docDefaults") {
            for k in d.els() {
                for y in k.els() {
                    defaults.push(y.clone());
                }
            }
        }
    }
    canon(&mut styles, c);
    canon(&mut defaults, c);

    let mut abstracts = El::new("abstracts");
    let mut nums = El::new("nums");
    if let Some(part) = p.related(&main, "numbering")? {
        let x = p.xml(&part)?;
        for s in x.all("w:abstractNum") {
            abstracts.push(s.clone());
        }
        for s in x.all("w:num") {
            nums.push(s.clone());
        }
    }
    canon(&mut abstracts, c);
    canon(&mut nums, c);

    let mut settings = El::new("settings");
    if let Some(part) = p.related(&main, "settings")? {
        for s in p.xml(&part)?.els() {
            if s.name == "w:compat" {
                for k in s.els().filter(|k| matches!(k.name.as_str(), "w:characterSpacingControl" | "w:adjustLineHeightInTable")) {
                    settings.push(k.clone());
                }
            }
            settings.push(s.clone());
        }
    }
    canon(&mut settings, c);

    let mut core = El::new("core");
    let mut props = El::new("props");
    let root = p.rels("")?;
    for r in &root {
        match crate::pkg::kind(&r.typ) {
            "core-properties" => {
                for s in p.xml(&r.part)?.els() {
                    core.push(s.clone());
                }
            }
            "custom-properties" => {
                for s in p.xml(&r.part)?.els() {
                    props.push(El::new("prop").a("name", s.attr("name").unwrap_or("")).t(s.text()));
                }
            }
            _ => {}
        }
    }

    let mut items = El::new("items");
    for r in &rels {
        if crate::pkg::kind(&r.typ) == "customXml" {
            let x = p.xml(&r.part)?;
            let id = match p.related(&r.part, "customXmlProps")? {
                Some(q) => p.xml(&q)?.attr("ds:itemID").unwrap_or("none").to_string(),
                None => "none".into(),
            };
            items.push(El::new("item").a("id", id).k(x));
        }
    }
    let mut webext = El::new("webext");
    for r in &root {
        if crate::pkg::kind(&r.typ) == "webextensiontaskpanes" {
            let rr = p.rels(&r.part)?;
            for x in &rr {
                if crate::pkg::kind(&x.typ) == "webextension" {
                    webext.push(p.xml(&x.part)?);
                }
            }
        }
    }
    canon(&mut items, c);
    canon(&mut webext, c);
    Ok(View { body, comments, styles, defaults, abstracts, nums, settings, core, props, items, webext })
}

/// The same form for what was expected.
pub fn expected_view(e: &Expect, c: Canon) -> View {
    let mk = |n: &str, v: &[El]| {
        let mut x = El::new(n).ks(v.to_vec());
        canon(&mut x, c);
        x
    };
    let mut comments = e.comments.clone();
    comments.sort_by_key(|c| c.attr("w:id").and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX));
    let mut props = El::new("props");
    for (a, b) in &e.props {
        props.push(El::new("prop").a("name", a).t(b));
    }
    let mut items = El::new("items");
    for (a, b) in &e.items {
        items.push(El::new("item").a("id", format!("{{{a}}}")).k(b.clone()));
    }
    canon(&mut items, c);
    View {
        body: mk("w:body", &e.body),
        comments: mk("comments", &comments),
        styles: mk("styles", &e.styles),
        defaults: mk("defaults", &e.defaults),
        abstracts: mk("abstracts", &e.abstracts),
        nums: mk("nums", &e.nums),
        settings: mk("settings", &e.settings),
        core: mk("core", &e.core),
        props,
        items,
        webext: mk("webext", &e.webext),
    }
}

fn show(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::T(s)) => format!("text {:?}", cut(s)),
        Some(Node::E(e)) => cut(&e.flat()),
    }
}

pub fn cut(s: &str) -> String {
    if s.chars().count() > 400 {
        format!("{}…", s.chars().take(400).collect::<String>())
    } else {
        s.to_string()
    }
}

/// The first place where two trees differ.
pub fn diff(want: &El, got: &El) -> Option<String> {
    fn go(a: &El, b: &El, path: &str) -> Option<String> {
        let path = format!("{path}/{}", a.name);
        if a.name != b.name {
            return Some(format!("{path}: wanted {} got {}", cut(&a.flat()), cut(&b.flat())));
        }
        if a.attrs != b.attrs {
            return Some(format!("{path}: attributes wanted {:?} got {:?}", a.attrs, b.attrs));
        }
        for i in 0..a.kids.len().max(b.kids.len()) {
            let (x, y) = (a.kids.get(i), b.kids.get(i));
            match (x, y) {
                (Some(Node::E(x)), Some(Node::E(y))) => {
                    if x.name != y.name {
                        return Some(format!("{path}[{i}]: wanted {} got {}", cut(&x.flat()), cut(&y.flat())));
                    }
                    if let Some(d) = go(x, y, &format!("{path}[{i}]")) {
                        return Some(d);
                    }
                }
                (Some(Node::T(x)), Some(Node::T(y))) if x == y => {}
                _ => return Some(format!("{path}[{i}]: wanted {} got {}", show(x), show(y))),
            }
        }
        None
    }
    go(want, got, "")
}

impl View {
    pub fn parts(&self) -> [&El; 11] {
        [
            &self.body,
            &self.comments,
            &self.styles,
            &self.defaults,
            &self.abstracts,
            &self.nums,
            &self.settings,
            &self.core,
            &self.props,
            &self.items,
            &self.webext,
        ]
    }
}
