//! The JSON view against the XML of the document, translated by the harness itself.

use crate::check::*;
use crate::gen::*;
use crate::pkg::{self, Package};
use crate::reads;
use crate::util::{hash, Rng};
use crate::xml::El;
use docx_rs::*;
use serde_json::{json, Map, Value};

type M = Map<String, Value>;

/// Stands for anything.
const ANY: &str = "\u{1}any";

fn any() -> Value {
    json!(ANY)
}

fn s(e: &El, a: &str) -> Value {
    e.attr(a).map(|x| json!(x)).unwrap_or(Value::Null)
}

fn number(x: &str) -> Value {
    if let Ok(i) = x.trim().parse::<i64>() {
        return json!(i);
    }
    match x.trim().parse::<f64>() {
        Ok(f) if f.fract() == 0.0 && f.abs() < 1e15 => json!(f as i64),
        Ok(f) => json!(f),
        Err(_) => json!(x),
    }
}

fn n(e: &El, a: &str) -> Value {
    e.attr(a).map(number).unwrap_or(Value::Null)
}

/// Measures are whole numbers.
fn whole(e: &El, a: &str) -> Value {
    match n(e, a) {
        Value::Number(x) => json!(x.as_f64().unwrap_or(0.0) as i64),
        v => v,
    }
}

fn on_val(v: Option<&str>) -> bool {
    !matches!(v, Some("false") | Some("0") | Some("off"))
}

fn on(e: &El) -> bool {
    on_val(e.attr("w:val"))
}

fn set(m: &mut M, k: &str, v: Value) {
    if !v.is_null() {
        m.insert(k.into(), v);
    }
}

struct Tr<'a> {
    p: &'a Package,
    main: String,
    /// the document was read, not built
    read: bool,
    comments: Option<El>,
    replies: Vec<(String, Option<String>)>,
    /// relationships of the part at hand
    rels: Vec<pkg::Rel>,
    /// whether ids are as saved: copies of a paragraph get ids of their own
    ids: bool,
}

impl Tr<'_> {
    fn rpr(&self, e: Option<&El>) -> Value {
        let mut m = M::new();
        for c in e.into_iter().flat_map(|e| e.els()) {
            match c.name.as_str() {
                // which alternative applies is up to the reader
                "mc:AlternateContent" => return any(),
                "w:rStyle" => set(&mut m, "style", s(c, "w:val")),
                "w:b" => {
                    set(&mut m, "bold", json!(on(c)));
                    // the reader takes both from w:b
                    if self.read {
                        set(&mut m, "boldCs", json!(on(c)));
                    }
                }
                "w:bCs" if !self.read => set(&mut m, "boldCs", json!(on(c))),
                "w:i" => {
                    set(&mut m, "italic", json!(on(c)));
                    // the reader takes both from w:i
                    if self.read {
                        set(&mut m, "italicCs", json!(on(c)));
                    }
                }
                "w:iCs" if !self.read => set(&mut m, "italicCs", json!(on(c))),
                "w:strike" => set(&mut m, "strike", json!(on(c))),
                "w:dstrike" => set(&mut m, "dstrike", json!(on(c))),
                "w:caps" => set(&mut m, "caps", json!(on(c))),
                "w:vanish" if on(c) => set(&mut m, "vanish", json!(true)),
                "w:specVanish" if on(c) => set(&mut m, "specVanish", json!(true)),
                "w:color" => set(&mut m, "color", s(c, "w:val")),
                "w:spacing" => set(&mut m, "characterSpacing", whole(c, "w:val")),
                "w:w" if !self.read => set(&mut m, "stretch", whole(c, "w:val")),
                "w:sz" => {
                    set(&mut m, "sz", whole(c, "w:val"));
                    if self.read {
                        set(&mut m, "szCs", whole(c, "w:val"));
                    }
                }
                // the reader takes both from w:sz
                "w:szCs" if !self.read => set(&mut m, "szCs", whole(c, "w:val")),
                "w:highlight" => set(&mut m, "highlight", s(c, "w:val")),
                "w:u" => set(&mut m, "underline", s(c, "w:val")),
                "w:vertAlign" => set(&mut m, "vertAlign", s(c, "w:val")),
                "w:shd" => set(&mut m, "shading", shd(c)),
                "w:fitText" => {
                    let mut f = M::new();
                    set(&mut f, "val", whole(c, "w:val"));
                    set(&mut f, "id", n(c, "w:id"));
                    set(&mut m, "fitText", Value::Object(f));
                }
                "w:bdr" => {
                    let mut f = M::new();
                    set(&mut f, "borderType", s(c, "w:val"));
                    for k in ["size", "space", "color"] {
                        set(&mut f, k, any());
                    }
                    set(&mut f, "size", whole(c, "w:sz"));
                    set(&mut f, "space", whole(c, "w:space"));
                    set(&mut f, "color", s(c, "w:color"));
                    set(&mut m, "textBorder", Value::Object(f));
                }
                "w:rFonts" => {
                    let mut f = M::new();
                    for (a, k) in [
                        ("ascii", "ascii"),
                        ("hAnsi", "hiAnsi"),
                        ("eastAsia", "eastAsia"),
                        ("cs", "cs"),
                        ("asciiTheme", "asciiTheme"),
                        ("hAnsiTheme", "hiAnsiTheme"),
                        ("eastAsiaTheme", "eastAsiaTheme"),
                        ("cstheme", "csTheme"),
                        ("hint", "hint"),
                    ] {
                        set(&mut f, k, s(c, &format!("w:{a}")));
                    }
                    set(&mut m, "fonts", Value::Object(f));
                }
                "w:ins" => set(&mut m, "ins", json!({"author": s(c, "w:author"), "date": s(c, "w:date"), "children": []})),
                "w:del" => set(&mut m, "del", json!({"author": s(c, "w:author"), "date": s(c, "w:date"), "children": []})),
                _ => {}
            }
        }
        Value::Object(m)
    }

    fn ppr(&self, e: Option<&El>) -> Value {
        let mut m = M::new();
        m.insert("runProperty".into(), self.rpr(e.and_then(|e| e.find("w:rPr"))));
        let mut tabs = vec![];
        for c in e.into_iter().flat_map(|e| e.els()) {
            match c.name.as_str() {
                "w:pStyle" => set(&mut m, "style", s(c, "w:val")),
                "w:numPr" => {
                    let mut f = M::new();
                    if let Some(x) = c.find("w:numId") {
                        set(&mut f, "id", n(x, "w:val"));
                    }
                    if let Some(x) = c.find("w:ilvl") {
                        set(&mut f, "level", n(x, "w:val"));
                    }
                    set(&mut m, "numberingProperty", Value::Object(f));
                }
                "w:jc" => set(&mut m, "alignment", s(c, "w:val")),
                "w:textAlignment" => set(&mut m, "textAlignment", s(c, "w:val")),
                "w:adjustRightInd" => set(&mut m, "adjustRightInd", json!(if self.read { on(c) as i64 } else { n(c, "w:val").as_i64().unwrap_or(1) })),
                "w:ind" => {
                    let mut f = M::new();
                    let start = if c.attr("w:start").is_some() { "w:start" } else { "w:left" };
                    let end = if c.attr("w:end").is_some() { "w:end" } else { "w:right" };
                    set(&mut f, "start", whole(c, start));
                    set(&mut f, "end", whole(c, end));
                    if c.attr("w:hanging").is_some() {
                        set(&mut f, "specialIndent", json!({"type": "hanging", "val": whole(c, "w:hanging")}));
                    } else if c.attr("w:firstLine").is_some() {
                        set(&mut f, "specialIndent", json!({"type": "firstLine", "val": whole(c, "w:firstLine")}));
                    }
                    set(&mut f, "startChars", whole(c, if c.attr("w:startChars").is_some() { "w:startChars" } else { "w:leftChars" }));
                    set(&mut f, "hangingChars", whole(c, "w:hangingChars"));
                    set(&mut f, "firstLineChars", whole(c, "w:firstLineChars"));
                    set(&mut m, "indent", Value::Object(f));
                }
                "w:spacing" => {
                    let mut f = M::new();
                    for k in ["before", "after", "beforeLines", "afterLines", "line"] {
                        set(&mut f, k, whole(c, &format!("w:{k}")));
                    }
                    set(&mut f, "lineRule", s(c, "w:lineRule"));
                    set(&mut m, "lineSpacing", Value::Object(f));
                }
                "w:outlineLvl" => set(&mut m, "outlineLvl", n(c, "w:val")),
                "w:keepNext" | "w:keepLines" | "w:pageBreakBefore" | "w:bidi" if on(c) => set(&mut m, &c.name[2..], json!(true)),
                // turned off is read as not set
                "w:widowControl" if self.read && !on(c) => {}
                "w:snapToGrid" | "w:widowControl" => set(&mut m, &c.name[2..], json!(on(c))),
                "w:divId" => set(&mut m, "divId", s(c, "w:val")),
                "w:shd" => set(&mut m, "shading", shd(c)),
                "w:tabs" => {
                    for t in c.all("w:tab") {
                        let mut f = M::new();
                        set(&mut f, "val", s(t, "w:val"));
                        set(&mut f, "leader", s(t, "w:leader"));
                        let pos = whole(t, "w:pos");
                        // positions below zero cannot be represented
                        set(&mut f, "pos", if pos.as_i64().unwrap_or(0) < 0 { json!(0) } else { pos });
                        tabs.push(Value::Object(f));
                    }
                }
                "w:framePr" => {
                    let mut f = M::new();
                    for (a, v) in &c.attrs {
                        let k = a.trim_start_matches("w:");
                        if matches!(k, "wrap" | "vAnchor" | "hAnchor" | "hRule" | "xAlign" | "yAlign") {
                            set(&mut f, k, json!(v));
                        } else if matches!(k, "hSpace" | "vSpace" | "x" | "y" | "w" | "h") {
                            set(&mut f, k, whole(c, a));
                        }
                    }
                    set(&mut m, "frameProperty", Value::Object(f));
                }
                "w:pBdr" => {
                    let mut f = M::new();
                    for b in c.els() {
                        let k = match &b.name[2..] {
                            "start" => "left",
                            "end" => "right",
                            k => k,
                        };
                        let mut g = M::new();
                        set(&mut g, "position", json!(k));
                        set(&mut g, "val", s(b, "w:val"));
                        for k in ["size", "space", "color"] {
                            set(&mut g, k, any());
                        }
                        set(&mut g, "size", whole(b, "w:sz"));
                        set(&mut g, "space", whole(b, "w:space"));
                        set(&mut g, "color", s(b, "w:color"));
                        set(&mut f, k, Value::Object(g));
                    }
                    set(&mut m, "borders", Value::Object(f));
                }
                "w:pPrChange" => {
                    let v = json!({"author": s(c, "w:author"), "date": s(c, "w:date"), "property": self.ppr(c.find("w:pPr"))});
                    set(&mut m, "paragraphPropertyChange", v);
                }
                "w:sectPr" => set(&mut m, "sectionProperty", self.sect(c)),
                _ => {}
            }
        }
        m.insert("tabs".into(), json!(tabs));
        Value::Object(m)
    }

    fn inside(&self, e: &El, typ: &str) -> Value {
        json!({"type": typ, "data": {"author": s(e, "w:author"), "date": s(e, "w:date"), "children": self.inline(e)}})
    }

    fn comment(&self, id: &str) -> Value {
        let Some(c) = self.comments.as_ref().and_then(|x| x.els().find(|c| c.attr("w:id") == Some(id))) else { return any() };
        let mut m = M::new();
        set(&mut m, "id", number(id));
        set(&mut m, "author", s(c, "w:author"));
        set(&mut m, "date", s(c, "w:date"));
        m.insert("children".into(), json!(self.blocks(c)));
        // the paragraph a comment ends with names it in the replies
        let key = |c: &El| c.els().filter(|p| p.name == "w:p").last().and_then(|p| p.attr("w14:paraId")).unwrap_or("").to_string();
        let me = key(c);
        if let Some((_, Some(parent))) = self.replies.iter().find(|r| r.0 == me) {
            let by = self.comments.as_ref().and_then(|x| x.els().find(|c| c.els().any(|p| p.attr("w14:paraId") == Some(parent))));
            if let Some(by) = by {
                set(&mut m, "parentCommentId", n(by, "w:id"));
            }
        }
        Value::Object(m)
    }

    fn inline(&self, e: &El) -> Vec<Value> {
        let mut out = vec![];
        let kids: Vec<&El> = e.els().collect();
        for (i, c) in kids.iter().enumerate() {
            match c.name.as_str() {
                "w:r" => {
                    if !self.read {
                        // written around the end of a comment
                        let next = kids.get(i + 1).map(|x| x.name.as_str());
                        let last = if i > 0 { kids[i - 1].name.as_str() } else { "" };
                        if next == Some("w:commentRangeEnd") && c.els().all(|x| x.name == "w:rPr" && x.kids.is_empty()) {
                            continue;
                        }
                        if last == "w:commentRangeEnd" && c.find("w:commentReference").is_some() {
                            continue;
                        }
                    }
                    out.push(json!({"type": "run", "data": {"runProperty": self.rpr(c.find("w:rPr")), "children": self.run(c)}}));
                }
                "w:ins" => out.push(self.inside(c, "insert")),
                "w:del" => out.push(self.inside(c, "delete")),
                "w:moveFrom" => out.push(self.inside(c, "moveFrom")),
                "w:moveTo" => out.push(self.inside(c, "moveTo")),
                "w:hyperlink" => {
                    let mut d = M::new();
                    if let Some(a) = c.attr("w:anchor") {
                        set(&mut d, "type", json!("anchor"));
                        set(&mut d, "anchor", json!(a));
                    } else {
                        set(&mut d, "type", json!("external"));
                        set(&mut d, "rid", s(c, "r:id"));
                        let to = self.rels.iter().find(|r| Some(r.id.as_str()) == c.attr("r:id")).map(|r| r.target.clone());
                        // what was read has its targets in a list of their own
                        set(&mut d, "path", if self.read { any() } else { json!(to) });
                    }
                    let h = match c.attr("w:history") {
                        // written also when it was not given
                        Some("1") if !self.read => any(),
                        Some(h) => json!(h.parse::<u64>().unwrap_or(1)),
                        None => Value::Null,
                    };
                    d.insert("history".into(), h);
                    d.insert("children".into(), json!(self.inline(c)));
                    out.push(json!({"type": "hyperlink", "data": d}));
                }
                "w:bookmarkStart" => out.push(json!({"type": "bookmarkStart", "data": {"id": n(c, "w:id"), "name": s(c, "w:name")}})),
                "w:bookmarkEnd" => out.push(json!({"type": "bookmarkEnd", "data": {"id": n(c, "w:id")}})),
                "w:commentRangeStart" => {
                    let id = c.attr("w:id").unwrap_or("");
                    out.push(json!({"type": "commentRangeStart", "data": {"id": number(id), "comment": self.comment(id)}}));
                }
                "w:commentRangeEnd" => out.push(json!({"type": "commentRangeEnd", "data": {"id": n(c, "w:id")}})),
                "w:sdt" => {
                    if self.read {
                        if let Some(x) = c.find("w:sdtContent") {
                            out.extend(self.inline(x));
                        }
                    } else {
                        out.push(self.sdt(c));
                    }
                }
                _ => {}
            }
        }
        out
    }

    fn run(&self, e: &El) -> Vec<Value> {
        let mut out = vec![];
        for c in e.els() {
            out.push(match c.name.as_str() {
                "w:t" | "w:delText" if self.read && c.text().is_empty() => continue,
                "mc:AlternateContent" => {
                    // text boxes in the first choice are read, the fallback is not
                    for d in c.all("mc:Choice").flat_map(|x| x.els()).filter(|x| x.name == "w:drawing") {
                        out.push(json!({"type": "drawing", "data": self.drawing(d)}));
                    }
                    continue;
                }
                "w:pict" => {
                    for x in c.all("v:shape") {
                        let mut m = M::new();
                        set(&mut m, "style", x.attr("style").map(|v| json!(v)).unwrap_or(Value::Null));
                        let id = x.find("v:imagedata").and_then(|d| d.attr("r:id"));
                        set(&mut m, "imageData", id.map(|id| json!({"id": id})).unwrap_or(Value::Null));
                        out.push(json!({"type": "shape", "data": m}));
                    }
                    continue;
                }
                "w:t" => json!({"type": "text", "data": {"preserveSpace": true, "text": c.text()}}),
                "w:delText" => json!({"type": "deleteText", "data": {"preserveSpace": true, "text": c.text()}}),
                "w:tab" => json!({"type": "tab"}),
                "w:cr" => json!({"type": "carriageReturn"}),
                "w:br" => json!({"type": "break", "data": {"breakType": c.attr("w:type").unwrap_or("textWrapping")}}),
                "w:sym" => json!({"type": "sym", "data": {"font": s(c, "w:font"), "char": s(c, "w:char")}}),
                "w:ptab" => json!({"type": "ptab", "data": {"alignment": s(c, "w:alignment"), "relativeTo": s(c, "w:relativeTo"), "leader": s(c, "w:leader")}}),
                "w:fldChar" => {
                    json!({"type": "fieldChar", "data": {"fieldCharType": s(c, "w:fldCharType"), "dirty": c.attr("w:dirty").map(|v| on_val(Some(v))).unwrap_or(false)}})
                }
                "w:instrText" => {
                    if self.read && c.text().is_empty() {
                        continue;
                    }
                    if self.read {
                        json!({"type": "instrTextString", "data": c.text()})
                    } else {
                        json!({"type": "instrText", "data": instr(&c.text(), false)})
                    }
                }
                "w:delInstrText" => {
                    if self.read && c.text().is_empty() {
                        continue;
                    }
                    if self.read {
                        json!({"type": "deleteInstrText", "data": {"type": "unsupported", "data": c.text()}})
                    } else {
                        json!({"type": "deleteInstrText", "data": instr(&c.text(), true)})
                    }
                }
                "w:footnoteReference" if !self.read => json!({"type": "footnoteReference", "data": {"id": n(c, "w:id")}}),
                "w:drawing" => {
                    let mut d = self.drawing(c);
                    if !self.read {
                        // pictures are named, and same ones put together, when they are written
                        if let Some(x) = d.pointer_mut("/data/id") {
                            *x = any();
                        }
                    }
                    json!({"type": "drawing", "data": d})
                }
                _ => continue,
            });
        }
        out
    }

    fn drawing(&self, e: &El) -> Value {
        let Some(c) = e.els().next() else { return json!({}) };
        let mut pic = None;
        let mut boxes = vec![];
        c.walk(|x| {
            if x.name == "pic:pic" {
                pic = Some(x);
            }
            if x.name == "wps:txbx" {
                boxes.push(x);
            }
        });
        let mut m = M::new();
        if let ([b], true) = (&boxes[..], self.read) {
            let mut kids: Vec<Value> = vec![];
            for x in b.all("w:txbxContent") {
                kids.extend(self.blocks(x).into_iter().filter(|k| k["type"] == "paragraph" || k["type"] == "table"));
            }
            set(&mut m, "children", json!(kids));
            place(c, &mut m);
            set(&mut m, "size", any());
            return json!({"type": "textBox", "data": m});
        }
        let Some(pic) = pic.filter(|_| boxes.is_empty()) else { return any() };
        let look = |name: &str| {
            let mut f = None;
            pic.walk(|x| {
                if x.name == name && f.is_none() {
                    f = Some(x);
                }
            });
            f
        };
        set(&mut m, "id", look("a:blip").map(|b| s(b, "r:embed")).unwrap_or(Value::Null));
        let rot = look("a:xfrm").and_then(|x| x.attr("rot").map(|r| r.parse::<i64>().unwrap_or(0) / 60000)).unwrap_or(0);
        set(&mut m, "rot", json!(rot));
        if let Some(x) = look("a:xfrm").and_then(|x| x.find("a:ext")) {
            set(&mut m, "size", json!([n(x, "cx"), n(x, "cy")]));
        }
        set(&mut m, "image", any());
        place(c, &mut m);
        json!({"type": "pic", "data": m})
    }

    fn sdt(&self, c: &El) -> Value {
        let mut p = M::new();
        let pr = c.find("w:sdtPr");
        p.insert("runProperty".into(), if self.read { json!({}) } else { self.rpr(pr.and_then(|p| p.find("w:rPr"))) });
        if let (Some(pr), false) = (pr, self.read) {
            if let Some(a) = pr.find("w:alias") {
                set(&mut p, "alias", s(a, "w:val"));
            }
            if let Some(b) = pr.find("w:dataBinding") {
                let mut f = M::new();
                set(&mut f, "xpath", s(b, "w:xpath"));
                set(&mut f, "prefix_mappings", s(b, "w:prefixMappings"));
                set(&mut f, "store_item_id", s(b, "w:storeItemID"));
                set(&mut p, "dataBinding", Value::Object(f));
            }
        }
        let mut kids = vec![];
        if let Some(x) = c.find("w:sdtContent") {
            kids = self.mixed(x);
        }
        json!({"type": "structuredDataTag", "data": {"children": kids, "property": p}})
    }

    /// Content that may be blocks or runs.
    fn mixed(&self, e: &El) -> Vec<Value> {
        let block = e.els().any(|c| matches!(c.name.as_str(), "w:p" | "w:tbl"));
        if block || e.els().all(|c| c.name == "w:sdt") {
            self.blocks(e)
        } else {
            self.inline(e)
        }
    }

    fn blocks(&self, e: &El) -> Vec<Value> {
        let mut out = vec![];
        let kids: Vec<&El> = e.els().collect();
        for c in &kids {
            match c.name.as_str() {
                "w:p" => {
                    out.push(json!({"type": "paragraph", "data": {
                        "id": if c.attr("w14:paraId").is_some() && self.ids { s(c, "w14:paraId") } else { any() },
                        "property": self.ppr(c.find("w:pPr")),
                        "children": self.inline(c),
                    }}));
                }
                "w:tbl" => out.push(self.table(c)),
                "w:sdt" => out.push(self.sdt(c)),
                "w:bookmarkStart" | "w:bookmarkEnd" | "w:commentRangeStart" | "w:commentRangeEnd" => {
                    let mut x = El::new("x");
                    x.push((*c).clone());
                    out.extend(self.inline(&x));
                }
                _ => {}
            }
        }
        out
    }

    fn table(&self, e: &El) -> Value {
        let mut rows = vec![];
        for r in e.all("w:tr") {
            let mut cells = vec![];
            for c in r.all("w:tc") {
                cells.push(json!({"type": "tableCell", "data": {"children": self.blocks(c), "property": tcpr(c.find("w:tcPr"))}}));
            }
            let mut p = M::new();
            for c in r.find("w:trPr").into_iter().flat_map(|x| x.els()) {
                match c.name.as_str() {
                    "w:gridAfter" => set(&mut p, "gridAfter", n(c, "w:val")),
                    "w:gridBefore" => set(&mut p, "gridBefore", n(c, "w:val")),
                    "w:wAfter" => set(&mut p, "widthAfter", n(c, "w:w")),
                    "w:wBefore" => set(&mut p, "widthBefore", n(c, "w:w")),
                    "w:trHeight" => {
                        set(&mut p, "rowHeight", n(c, "w:val"));
                        set(&mut p, "heightRule", s(c, "w:hRule"));
                    }
                    "w:cantSplit" if on(c) => set(&mut p, "cantSplit", json!("cantSplit")),
                    "w:ins" | "w:del" => set(&mut p, &c.name[2..], json!({"author": s(c, "w:author"), "date": s(c, "w:date"), "children": []})),
                    _ => {}
                }
            }
            rows.push(json!({"type": "tableRow", "data": {"cells": cells, "property": p}}));
        }
        let grid: Vec<Value> = e.find("w:tblGrid").into_iter().flat_map(|g| g.els()).filter(|g| g.name == "w:gridCol").map(|g| whole(g, "w:w")).collect();
        json!({"type": "table", "data": {"rows": rows, "grid": grid, "property": tblpr(e.find("w:tblPr"), self.read)}})
    }

    fn header(&self, name: &str) -> Value {
        let Ok(x) = self.p.xml(name) else { return any() };
        let t = Tr {
            p: self.p,
            main: name.into(),
            read: self.read,
            comments: self.comments.clone(),
            replies: self.replies.clone(),
            rels: self.p.rels(name).unwrap_or_default(),
            ids: self.ids,
        };
        json!({"children": t.blocks(&x)})
    }

    fn sect(&self, e: &El) -> Value {
        let mut m = M::new();
        m.insert("columns".into(), json!(1));
        m.insert("space".into(), json!(425));
        m.insert("titlePg".into(), json!(false));
        m.insert("textDirection".into(), json!("lrTb"));
        m.insert("pageSize".into(), any());
        m.insert("pageMargin".into(), any());
        for c in e.els() {
            match c.name.as_str() {
                "w:pgSz" => {
                    let mut f = M::new();
                    set(&mut f, "w", whole(c, "w:w"));
                    set(&mut f, "h", whole(c, "w:h"));
                    set(&mut f, "orient", if self.read { any() } else { s(c, "w:orient") });
                    set(&mut m, "pageSize", Value::Object(f));
                }
                "w:pgMar" => {
                    let mut f = M::new();
                    for k in ["top", "left", "bottom", "right", "header", "footer", "gutter"] {
                        set(&mut f, k, whole(c, &format!("w:{k}")));
                    }
                    set(&mut m, "pageMargin", Value::Object(f));
                }
                "w:cols" => {
                    if c.attr("w:num").is_some() {
                        set(&mut m, "columns", n(c, "w:num"));
                    }
                    if !self.read && c.attr("w:space").is_some() {
                        set(&mut m, "space", n(c, "w:space"));
                    }
                }
                "w:docGrid" => {
                    let mut f = M::new();
                    set(&mut f, "gridType", if c.attr("w:type").is_some() { s(c, "w:type") } else { any() });
                    set(&mut f, "linePitch", whole(c, "w:linePitch"));
                    set(&mut f, "charSpace", whole(c, "w:charSpace"));
                    set(&mut m, "docGrid", Value::Object(f));
                }
                "w:type" => set(&mut m, "sectionType", s(c, "w:val")),
                "w:titlePg" => set(&mut m, "titlePg", json!(on(c))),
                "w:textDirection" => set(&mut m, "textDirection", s(c, "w:val")),
                "w:pgNumType" => {
                    let mut f = M::new();
                    set(&mut f, "start", n(c, "w:start"));
                    set(&mut f, "chapStyle", s(c, "w:chapStyle"));
                    set(&mut m, "pageNumType", Value::Object(f));
                }
                "w:headerReference" | "w:footerReference" => {
                    let kind = &c.name[2..8];
                    let t = c.attr("w:type").unwrap_or("default");
                    let key = match t {
                        "first" => format!("first{}{}", kind[..1].to_uppercase(), &kind[1..]),
                        "even" => format!("even{}{}", kind[..1].to_uppercase(), &kind[1..]),
                        _ => kind.to_string(),
                    };
                    let mut f = M::new();
                    // parts are numbered when a document is saved
                    set(&mut f, "id", if self.read { s(c, "r:id") } else { any() });
                    set(&mut f, &format!("{kind}Type"), json!(t));
                    set(&mut m, &format!("{key}Reference"), Value::Object(f));
                    let to = self.rels.iter().find(|r| Some(r.id.as_str()) == c.attr("r:id"));
                    if let Some(to) = to {
                        set(&mut m, &key, json!([if self.read { json!(to.id) } else { any() }, self.header(&pkg::resolve(&self.main, &to.target))]));
                    }
                }
                _ => {}
            }
        }
        Value::Object(m)
    }

    fn level(&self, l: &El) -> Value {
        let mut m = M::new();
        set(&mut m, "level", n(l, "w:ilvl"));
        set(&mut m, "suffix", json!("tab"));
        set(&mut m, "start", json!(0));
        for k in ["format", "text", "jc"] {
            set(&mut m, k, any());
        }
        m.insert("paragraphProperty".into(), self.ppr(l.find("w:pPr")));
        m.insert("runProperty".into(), self.rpr(l.find("w:rPr")));
        for c in l.els() {
            match c.name.as_str() {
                "w:start" => set(&mut m, "start", n(c, "w:val")),
                "w:numFmt" => set(&mut m, "format", s(c, "w:val")),
                "w:lvlText" => set(&mut m, "text", s(c, "w:val")),
                "w:lvlJc" => set(&mut m, "jc", s(c, "w:val")),
                "w:suff" => set(&mut m, "suffix", s(c, "w:val")),
                "w:pStyle" => set(&mut m, "pstyle", s(c, "w:val")),
                "w:lvlRestart" => set(&mut m, "levelRestart", n(c, "w:val")),
                "w:isLgl" if on(c) => set(&mut m, "isLgl", json!(true)),
                _ => {}
            }
        }
        Value::Object(m)
    }

    fn numbering(&self, x: &El) -> (Vec<Value>, Vec<Value>) {
        let mut a = vec![];
        let mut b = vec![];
        for e in x.all("w:abstractNum") {
            let mut m = M::new();
            set(&mut m, "id", n(e, "w:abstractNumId"));
            for (t, k) in [("w:styleLink", "styleLink"), ("w:numStyleLink", "numStyleLink")] {
                if let Some(l) = e.find(t) {
                    set(&mut m, k, s(l, "w:val"));
                }
            }
            m.insert("levels".into(), json!(e.all("w:lvl").map(|l| self.level(l)).collect::<Vec<_>>()));
            a.push(Value::Object(m));
        }
        for e in x.all("w:num") {
            let mut m = M::new();
            set(&mut m, "id", n(e, "w:numId"));
            if let Some(l) = e.find("w:abstractNumId") {
                set(&mut m, "abstractNumId", n(l, "w:val"));
            }
            let mut o = vec![];
            for l in e.all("w:lvlOverride") {
                let mut f = M::new();
                set(&mut f, "level", n(l, "w:ilvl"));
                if let Some(x) = l.find("w:startOverride") {
                    set(&mut f, "overrideStart", n(x, "w:val"));
                }
                if let Some(x) = l.find("w:lvl") {
                    set(&mut f, "overrideLevel", self.level(x));
                }
                o.push(Value::Object(f));
            }
            m.insert("levelOverrides".into(), json!(o));
            b.push(Value::Object(m));
        }
        (a, b)
    }

    fn style(&self, e: &El) -> Value {
        let mut m = M::new();
        set(&mut m, "styleId", s(e, "w:styleId"));
        set(&mut m, "styleType", s(e, "w:type"));
        for (t, k) in [("w:name", "name"), ("w:basedOn", "basedOn"), ("w:link", "link")] {
            if let Some(x) = e.find(t) {
                set(&mut m, k, s(x, "w:val"));
            }
        }
        if !self.read {
            if let Some(x) = e.find("w:next") {
                set(&mut m, "next", s(x, "w:val"));
            }
            if let Some(x) = e.find("w:uiPriority") {
                set(&mut m, "uiPriority", n(x, "w:val"));
            }
            for (t, k) in [("w:semiHidden", "semiHidden"), ("w:unhideWhenUsed", "unhideWhenUsed")] {
                if e.find(t).is_some() {
                    set(&mut m, k, json!(true));
                }
            }
            if e.find("w:qFormat").is_none() {
                set(&mut m, "qFormat", json!(false));
            }
        }
        m.insert("runProperty".into(), self.rpr(e.find("w:rPr")));
        m.insert("paragraphProperty".into(), self.ppr(e.find("w:pPr")));
        m.insert("tableProperty".into(), e.find("w:tblPr").map(|x| tblpr(Some(x), self.read)).unwrap_or(any()));
        m.insert("tableCellProperty".into(), e.find("w:tcPr").map(|x| tcpr(Some(x))).unwrap_or(any()));
        Value::Object(m)
    }
}

fn shd(c: &El) -> Value {
    let mut f = M::new();
    set(&mut f, "shdType", s(c, "w:val"));
    for (a, k) in [("w:color", "color"), ("w:fill", "fill")] {
        // reported even if it is not given
        set(&mut f, k, if c.attr(a).is_some() { s(c, a) } else { any() });
    }
    Value::Object(f)
}

fn width(c: &El) -> Value {
    let mut f = M::new();
    set(&mut f, "width", whole(c, "w:w"));
    set(&mut f, "widthType", s(c, "w:type"));
    Value::Object(f)
}

fn side(n: &str) -> &str {
    match n {
        "start" => "left",
        "end" => "right",
        n => n,
    }
}

fn borders(c: &El) -> Value {
    let mut f = M::new();
    for b in c.els() {
        let k = side(&b.name[2..]);
        let mut g = M::new();
        set(&mut g, "position", json!(k));
        set(&mut g, "borderType", s(b, "w:val"));
        for k in ["size", "space", "color"] {
            // reported even if they are not given
            set(&mut g, k, any());
        }
        set(&mut g, "size", whole(b, "w:sz"));
        set(&mut g, "space", whole(b, "w:space"));
        set(&mut g, "color", s(b, "w:color"));
        set(&mut f, k, Value::Object(g));
    }
    Value::Object(f)
}

fn margins(c: &El) -> Value {
    let mut f = M::new();
    for b in c.els() {
        let n = &b.name[2..];
        // logical sides are not read; the reports of the tests rely on it
        if side(n) != n {
            set(&mut f, side(n), any());
            continue;
        }
        set(&mut f, n, json!({"val": whole(b, "w:w"), "widthType": s(b, "w:type")}));
    }
    Value::Object(f)
}

fn tcpr(e: Option<&El>) -> Value {
    let mut m = M::new();
    for c in e.into_iter().flat_map(|e| e.els()) {
        match c.name.as_str() {
            "w:tcW" => set(&mut m, "width", width(c)),
            "w:tcBorders" => set(&mut m, "borders", borders(c)),
            "w:gridSpan" => set(&mut m, "gridSpan", n(c, "w:val")),
            "w:vMerge" => set(&mut m, "verticalMerge", json!(c.attr("w:val").unwrap_or("continue"))),
            "w:vAlign" => set(&mut m, "verticalAlign", s(c, "w:val")),
            "w:textDirection" => set(&mut m, "textDirection", s(c, "w:val")),
            "w:shd" => set(&mut m, "shading", shd(c)),
            "w:tcMar" => set(&mut m, "margins", margins(c)),
            _ => {}
        }
    }
    Value::Object(m)
}

fn tblpr(e: Option<&El>, read: bool) -> Value {
    let mut m = M::new();
    if read {
        // reported even if they are not given
        set(&mut m, "width", any());
        set(&mut m, "justification", any());
    }
    for c in e.into_iter().flat_map(|e| e.els()) {
        match c.name.as_str() {
            "w:tblW" => set(&mut m, "width", width(c)),
            "w:jc" => set(&mut m, "justification", c.attr("w:val").map(|v| json!(side(v))).unwrap_or(Value::Null)),
            "w:tblBorders" => set(&mut m, "borders", borders(c)),
            "w:tblCellMar" => set(&mut m, "margins", margins(c)),
            // none at all is read as not set
            "w:tblInd" if read && whole(c, "w:w") == json!(0) => {}
            "w:tblInd" => set(&mut m, "indent", width(c)),
            "w:tblStyle" => set(&mut m, "style", s(c, "w:val")),
            "w:tblLayout" => set(&mut m, "layout", s(c, "w:type")),
            "w:tblpPr" => {
                let mut f = M::new();
                for (a, k) in [
                    ("leftFromText", "leftFromText"),
                    ("rightFromText", "rightFromText"),
                    ("tblpX", "positionX"),
                    ("tblpY", "positionY"),
                ] {
                    set(&mut f, k, whole(c, &format!("w:{a}")));
                }
                for (a, k) in [
                    ("vertAnchor", "verticalAnchor"),
                    ("horzAnchor", "horizontalAnchor"),
                    ("tblpXSpec", "positionXAlignment"),
                    ("tblpYSpec", "positionYAlignment"),
                ] {
                    set(&mut f, k, s(c, &format!("w:{a}")));
                }
                set(&mut m, "position", Value::Object(f));
            }
            _ => {}
        }
    }
    Value::Object(m)
}

/// What a field instruction is reported as.
fn instr(t: &str, gone: bool) -> Value {
    let w: Vec<&str> = t.split_whitespace().collect();
    let inside = |c: &str| t.strip_prefix(c).and_then(|x| x.strip_prefix('"')).and_then(|x| x.rsplit_once('"'));
    match w.first().copied().unwrap_or("") {
        "PAGE" if !gone => json!({"type": "page", "data": ANY}),
        "NUMPAGES" if !gone => json!({"type": "numPages", "data": ANY}),
        "PAGEREF" => {
            let (h, p) = (w.contains(&"\\h"), w.contains(&"\\p"));
            json!({"type": "pageref", "data": {"pageRef": w.get(1), "hyperlink": h, "relativePosition": p}})
        }
        "HYPERLINK" => {
            let l = t.starts_with("HYPERLINK \\l ");
            match inside(if l { "HYPERLINK \\l " } else { "HYPERLINK " }) {
                Some((x, _)) => json!({"type": "hyperlink", "data": {"target": x, "anchor": l}}),
                None => any(),
            }
        }
        "TC" => match inside("TC ") {
            Some((x, rest)) => {
                let r: Vec<&str> = rest.split_whitespace().collect();
                let at = |k: &str| r.iter().position(|y| *y == k).and_then(|i| r.get(i + 1).copied());
                let mut m = M::new();
                set(&mut m, "text", json!(x));
                set(&mut m, "omitsPageNumber", json!(r.contains(&"\\n")));
                set(&mut m, "level", json!(at("\\l").and_then(|l| l.parse::<u64>().ok())));
                set(&mut m, "itemTypeIdentifier", json!(at("\\f")));
                json!({"type": "tc", "data": m})
            }
            None => any(),
        },
        "TOC" => json!({"type": "toc", "data": ANY}),
        _ => json!({"type": "unsupported", "data": t}),
    }
}

/// Where a picture or text box is put.
fn place(c: &El, m: &mut M) {
    for k in ["distT", "distB", "distL", "distR"] {
        set(m, k, json!(c.attr(k).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0)));
    }
    for k in ["simplePos", "simplePosX", "simplePosY", "layoutInCell", "relativeHeight", "allowOverlap", "positionH", "positionV", "relativeFromH", "relativeFromV"] {
        set(m, k, any());
    }
    if c.name == "wp:inline" {
        set(m, "positionType", json!("inline"));
    } else {
        set(m, "positionType", json!("anchor"));
        for k in ["simplePos", "layoutInCell", "allowOverlap"] {
            if let Some(v) = c.attr(k) {
                set(m, k, json!(on_val(Some(v))));
            }
        }
        set(m, "relativeHeight", n(c, "relativeHeight"));
        if let Some(x) = c.find("wp:simplePos") {
            set(m, "simplePosX", n(x, "x"));
            set(m, "simplePosY", n(x, "y"));
        }
        for (t, k, rel) in [("wp:positionH", "positionH", "relativeFromH"), ("wp:positionV", "positionV", "relativeFromV")] {
            if let Some(x) = c.find(t) {
                // the report has a word of its own for this
                set(m, rel, match x.attr("relativeFrom") {
                    Some("outsideMargin") => json!("outsizeMargin"),
                    _ => s(x, "relativeFrom"),
                });
                if let Some(o) = x.find("wp:posOffset") {
                    set(m, k, json!({"offset": number(&o.text())}));
                } else if let Some(o) = x.find("wp:align") {
                    set(m, k, json!({"align": o.text()}));
                }
            }
        }
    }
}

/// The first place where the JSON is not what is wanted.
fn compare(want: &Value, got: &Value, at: &str, seen: &mut u64) -> Option<String> {
    if want.as_str() == Some(ANY) {
        return None;
    }
    let show = |v: &Value| crate::view::cut(&v.to_string());
    // page numbers are written as a run that holds a field
    if let Some(t @ ("pageNum" | "numPages")) = got["type"].as_str() {
        let i = want.pointer("/data/children/1/data/type").and_then(|x| x.as_str()).unwrap_or("");
        let n = want.pointer("/data/children").and_then(|x| x.as_array()).map(|x| x.len()).unwrap_or(0);
        if n == 5 && i == (if t == "pageNum" { "page" } else { "numPages" }) {
            return None;
        }
    }
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            if let (Some(Value::String(x)), Some(Value::String(y))) = (a.get("type"), b.get("type")) {
                if x != y {
                    return Some(format!("{at}: {} instead of {}", show(got), show(want)));
                }
            }
            for (k, v) in a {
                if v.is_null() || v.as_str() == Some(ANY) {
                    continue;
                }
                match b.get(k) {
                    None | Some(Value::Null) => {
                        // nothing is as good as an empty object
                        if v.as_object().map(|o| o.is_empty()).unwrap_or(false) {
                            continue;
                        }
                        return Some(format!("{at}/{k}: missing, should be {} in {}", show(v), show(got)));
                    }
                    Some(x) => {
                        if let Some(d) = compare(v, x, &format!("{at}/{k}"), seen) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, v) in b {
                if v.is_null() || a.contains_key(k) || k == "hasNumbering" || v.as_object().map(|o| o.values().all(|x| x.is_null())).unwrap_or(false) {
                    continue;
                }
                return Some(format!("{at}/{k}: {} is not in the document", show(v)));
            }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = compare(x, y, &format!("{at}[{i}]"), seen) {
                    return Some(d);
                }
            }
            // a cell is written with a paragraph even if it has nothing
            if b.is_empty() && a.len() == 1 && at.contains("/cells[") && a[0]["type"] == "paragraph" && a[0]["data"]["children"] == json!([]) {
                return None;
            }
            if a.len() != b.len() {
                let f = a.get(b.len()).or_else(|| b.get(a.len())).map(&show).unwrap_or_default();
                return Some(format!("{at}: {} items reported instead of {}, from {f}", b.len(), a.len()));
            }
            None
        }
        (Value::Number(a), Value::Number(b)) => {
            *seen += 1;
            if a.as_f64() == b.as_f64() {
                None
            } else {
                Some(format!("{at}: {b} instead of {a}"))
            }
        }
        _ => {
            *seen += 1;
            if want == got {
                None
            } else {
                Some(format!("{at}: {} instead of {}", show(got), show(want)))
            }
        }
    }
}

/// What the writer puts for what is not set, and reported defaults.
fn level(v: &mut Value, read: bool) {
    match v {
        Value::Object(m) => {
            for x in m.values_mut() {
                level(x, read);
            }
            if !read {
                if let Some(Value::Object(i)) = m.get_mut("indent") {
                    if i.contains_key("specialIndent") || i.contains_key("startChars") {
                        for k in ["start", "end"] {
                            if i.get(k).map(|x| x.is_null()).unwrap_or(true) {
                                i.insert(k.into(), json!(0));
                            }
                        }
                    }
                }
                if m.get("rowHeight").map(|x| !x.is_null()).unwrap_or(false) && m.get("heightRule").map(|x| x.is_null()).unwrap_or(true) {
                    m.insert("heightRule".into(), json!("atLeast"));
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| level(x, read)),
        _ => {}
    }
}

/// Compares the whole report. Returns how many values were compared.
fn faithful(v: &mut Value, p: &Package, read: bool, ids: bool) -> Result<u64, String> {
    let main = p.main_part()?;
    let x = p.xml(&main)?;
    let related = |k: &str| p.related(&main, k).ok().flatten();
    let comments = related("comments").and_then(|n| p.xml(&n).ok());
    let mut replies = vec![];
    if let Some(e) = related("commentsExtended").and_then(|n| p.xml(&n).ok()) {
        for c in e.els() {
            replies.push((c.attr("w15:paraId").unwrap_or("").to_string(), c.attr("w15:paraIdParent").map(|x| x.to_string())));
        }
    }
    let t = Tr { p, main: main.clone(), read, comments, replies, rels: p.rels(&main)?, ids };
    level(v, read);
    let mut seen = 0;
    let body = x.find("w:body").ok_or("no body")?;
    let say = |d: Option<String>| d.map(Err).unwrap_or(Ok(()));
    say(compare(&json!(t.blocks(body)), &v["document"]["children"], "document", &mut seen))?;
    if let Some(e) = body.find("w:sectPr") {
        say(compare(&t.sect(e), &v["document"]["sectionProperty"], "section", &mut seen))?;
    }
    if let (Some(c), true) = (t.comments.as_ref(), read) {
        let want: Vec<Value> = c.all("w:comment").map(|c| t.comment(c.attr("w:id").unwrap_or(""))).collect();
        say(compare(&json!(want), &v["comments"]["comments"], "comments", &mut seen))?;
    }
    if let Some(e) = related("styles").and_then(|n| p.xml(&n).ok()) {
        let want: Vec<Value> = e.all("w:style").map(|e| t.style(e)).collect();
        let got = v["styles"]["styles"].as_array().cloned().unwrap_or_default();
        // the writer adds styles of its own
        let want: Vec<Value> = if read { want } else { want.into_iter().filter(|w| got.iter().any(|g| g["styleId"] == w["styleId"])).collect() };
        say(compare(&json!(want), &json!(got), "styles", &mut seen))?;
        if let Some(d) = e.find("w:docDefaults") {
            if let Some(r) = d.find("w:rPrDefault") {
                say(compare(&t.rpr(r.find("w:rPr")), &v["styles"]["docDefaults"]["runPropertyDefault"]["runProperty"], "defaults", &mut seen))?;
            }
            if let Some(r) = d.find("w:pPrDefault") {
                say(compare(&t.ppr(r.find("w:pPr")), &v["styles"]["docDefaults"]["paragraphPropertyDefault"]["paragraphProperty"], "defaults", &mut seen))?;
            }
        }
    }
    if let Some(e) = related("numbering").and_then(|n| p.xml(&n).ok()) {
        let (mut a, mut b) = t.numbering(&e);
        let own = |v: &Value, got: &Value| got.as_array().into_iter().flatten().any(|g| g["id"] == v["id"]);
        if !read {
            a.retain(|x| own(x, &v["numberings"]["abstractNums"]));
            b.retain(|x| own(x, &v["numberings"]["numberings"]));
        }
        say(compare(&json!(a), &v["numberings"]["abstractNums"], "abstractNums", &mut seen))?;
        say(compare(&json!(b), &v["numberings"]["numberings"], "numberings", &mut seen))?;
    }
    if let Some(e) = related("settings").and_then(|n| p.xml(&n).ok()) {
        let got = &v["settings"];
        if let Some(x) = e.find("w:defaultTabStop") {
            say(compare(&whole(x, "w:val"), &got["defaultTabStop"], "settings/defaultTabStop", &mut seen))?;
        }
        say(compare(&json!(e.find("w:evenAndOddHeaders").map(on).unwrap_or(false)), &got["evenAndOddHeaders"], "settings/evenAndOddHeaders", &mut seen))?;
        let mut found = [None, None];
        e.walk(|x| match x.name.as_str() {
            "w:characterSpacingControl" => found[0] = Some(x),
            "w:adjustLineHeightInTable" => found[1] = Some(x),
            _ => {}
        });
        if let Some(x) = found[0].and_then(|x| x.attr("w:val")).filter(|x| *x != "unsupported") {
            say(compare(&json!(x), &got["characterSpacingControl"], "settings/characterSpacingControl", &mut seen))?;
        }
        say(compare(&json!(found[1].map(on).unwrap_or(false)), &got["adjustLineHeightInTable"], "settings/adjustLineHeightInTable", &mut seen))?;
        let vars: Vec<Value> = e.find("w:docVars").into_iter().flat_map(|d| d.els()).map(|d| json!({"name": s(d, "w:name"), "val": s(d, "w:val")})).collect();
        say(compare(&json!(vars), &got["docVars"], "settings/docVars", &mut seen))?;
    }
    if read {
        let themes: Vec<Value> = t
            .rels
            .iter()
            .filter(|r| pkg::kind(&r.typ) == "theme")
            .filter_map(|r| p.xml(&r.part).ok())
            .map(|e| {
                let mut scheme = None;
                e.walk(|x| {
                    if x.name == "a:fontScheme" {
                        scheme = Some(x);
                    }
                });
                json!({"fontSchema": {
                    "majorFont": fonts(scheme.and_then(|s| s.find("a:majorFont"))),
                    "minorFont": fonts(scheme.and_then(|s| s.find("a:minorFont"))),
                }})
            })
            .collect();
        say(compare(&json!(themes), &v["themes"], "themes", &mut seen))?;
        if let Some(e) = related("webSettings").and_then(|n| p.xml(&n).ok()) {
            let want: Vec<Value> = e.find("w:divs").into_iter().flat_map(|d| d.all("w:div")).map(div).collect();
            say(compare(&json!(want), &v["webSettings"]["divs"], "webSettings", &mut seen))?;
        }
        // pictures, as text; those of headers and footers come with them
        use base64::Engine;
        let mut got: Vec<&Value> = v["images"].as_array().into_iter().flatten().collect();
        for r in t.rels.iter().filter(|r| pkg::kind(&r.typ) == "image" && !r.external) {
            let Some(b) = p.parts.get(&r.part) else { continue };
            let b = base64::engine::general_purpose::STANDARD.encode(b);
            match got.iter().position(|g| g[0] == json!(r.id) && g[2] == json!(b)) {
                Some(i) => {
                    got.remove(i);
                    seen += 2;
                }
                None => return Err(format!("images: {} with the bytes of {} is missing", r.id, r.part)),
            }
        }
    }
    Ok(seen)
}

fn fonts(e: Option<&El>) -> Value {
    let face = |k: &str| e.and_then(|e| e.find(k)).and_then(|x| x.attr("typeface")).unwrap_or("").to_string();
    let all: Vec<Value> =
        e.into_iter().flat_map(|e| e.all("a:font")).map(|x| json!({"script": s(x, "script"), "typeface": s(x, "typeface")})).collect();
    json!({"latin": face("a:latin"), "ea": face("a:ea"), "cs": face("a:cs"), "fonts": all})
}

fn div(e: &El) -> Value {
    let mar = |k: &str| e.find(k).and_then(|x| x.attr("w:val")).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let kids: Vec<Value> = e.all("w:divsChild").flat_map(|d| d.els()).filter(|d| d.name == "w:div").map(div).collect();
    json!({
        "id": s(e, "w:id"),
        "marginLeft": mar("w:marLeft"),
        "marginRight": mar("w:marRight"),
        "marginTop": mar("w:marTop"),
        "marginBottom": mar("w:marBottom"),
        "divsChild": kids,
    })
}

fn c21(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed);
    if r.below(100) < 60 {
        let cfg = Cfg { toc: 0, sections: 0, hostile: r.flip(), max_blocks: 1 + r.us(8), ..Cfg::full() };
        let mut g = Gen::new(seed, cfg);
        let d = g.docx();
        let text = d.json();
        let mut v: Value = serde_json::from_str(&text).map_err(|e| format!("the report is not JSON: {e}"))?;
        if d.json() != text {
            return Err("a second report is different".into());
        }
        let copy = d.clone();
        if copy.json() != text {
            return Err("the report of a copy is different".into());
        }
        let mut b = std::io::Cursor::new(vec![]);
        copy.pack(&mut b).map_err(|e| format!("saving fails: {e}"))?;
        if d.json() != text {
            return Err("the report changes when a copy is saved".into());
        }
        let p = pkg::load(&b.into_inner())?;
        let ids = g.same.is_none();
        if ids {
            cx.obs.one("documents without copies of paragraphs");
        }
        let n = faithful(&mut v, &p, false, ids)?;
        cx.obs.one("reports of built documents");
        cx.obs.add("values compared", n);
        if n > 10 {
            cx.obs.hit(hash(text.as_bytes()));
        }
    } else {
        let cfg = Cfg { max_blocks: 1 + r.us(8), ..Cfg::full() }.readable();
        let (from, mut p) = reads::subject(seed, &mut r, cfg, 10)?;
        reads::grafted(&from, &mut p, &mut r, cx)?;
        let b = pkg::zip(&p, None);
        let d = read_docx(&b).map_err(|e| format!("{from}: reading fails: {e:?}"))?;
        let text = d.json();
        let mut v: Value = serde_json::from_str(&text).map_err(|e| format!("{from}: the report is not JSON: {e}"))?;
        if d.json() != text || d.clone().json() != text {
            return Err(format!("{from}: a second report is different"));
        }
        let n = faithful(&mut v, &p, true, false).map_err(|e| format!("{from}: {e}"))?;
        cx.obs.one(if from == "generated" { "reports of read documents" } else { "reports of files of other programs" });
        cx.obs.add("values compared", n);
        if n > 10 {
            cx.obs.hit(hash(text.as_bytes()));
        }
    }
    Ok(())
}

pub const ALL: &[Check] = &[Check {
    id: "C21",
    rule: "a report with more than ten values, by its text",
    assumptions: &["the XML of the saved document is right (C03, C04, C09 to C16)"],
    level: "exploration",
    cases: 4000,
    deep: 20,
    threads: 8,
    floor: 300,
    case: c21,
    probes: &[],
}];
