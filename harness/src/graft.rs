//! Adds to a package what other programs write and this library only reads: themes, web settings,
//! text boxes and shapes.

use crate::checks;
use crate::gen::*;
use crate::pkg::Package;
use crate::util::Rng;
use crate::xml::{self, El, Node};

const REL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
const W: &str = "http://schemas.openxmlformats.org/wordprocessingml/2006/main";
const A: &str = "http://schemas.openxmlformats.org/drawingml/2006/main";

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\t', "&#9;")
}

fn word(r: &mut Rng) -> String {
    let n = r.below(100_000);
    esc(&r.attr_text(&format!("g{n}")))
}

fn put(p: &mut Package, part: &str, b: Vec<u8>) {
    p.parts.insert(part.into(), b);
    p.order.push(part.into());
}

/// Inserts `what` before the last `end` of a part.
fn before(p: &mut Package, part: &str, end: &str, what: &str) -> bool {
    let Some(b) = p.parts.get_mut(part) else { return false };
    let Ok(mut s) = String::from_utf8(b.clone()) else { return false };
    let Some(i) = s.rfind(end) else { return false };
    s.insert_str(i, what);
    *b = s.into_bytes();
    true
}

/// A part related to the main one.
fn relate(p: &mut Package, id: &str, kind: &str, target: &str, content: Option<&str>, b: Vec<u8>) {
    let rel = format!("<Relationship Id=\"{id}\" Type=\"{REL}/{kind}\" Target=\"{target}\"/>");
    if !before(p, "word/_rels/document.xml.rels", "</Relationships>", &rel) {
        return;
    }
    if let Some(c) = content {
        before(p, "[Content_Types].xml", "</Types>", &format!("<Override PartName=\"/word/{target}\" ContentType=\"{c}\"/>"));
    }
    put(p, &format!("word/{target}"), b);
}

fn theme(r: &mut Rng) -> String {
    let mut s = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><a:theme xmlns:a=\"{A}\" name=\"{}\"><a:themeElements>", word(r));
    s.push_str("<a:clrScheme name=\"x\"><a:dk1><a:sysClr val=\"windowText\" lastClr=\"000000\"/></a:dk1><a:accent1><a:srgbClr val=\"5B9BD5\"/></a:accent1></a:clrScheme>");
    s.push_str(&format!("<a:fontScheme name=\"{}\">", word(r)));
    for t in ["a:majorFont", "a:minorFont"] {
        if r.one_in(6) {
            continue;
        }
        s.push_str(&format!("<{t}>"));
        for f in ["a:latin", "a:ea", "a:cs"] {
            if !r.one_in(4) {
                let v = if r.one_in(4) { String::new() } else { word(r) };
                s.push_str(&format!("<{f} typeface=\"{v}\" panose=\"020F0502020204030204\"/>"));
            }
        }
        for _ in 0..r.us(5) {
            s.push_str(&format!("<a:font script=\"{}\" typeface=\"{}\"/>", r.pick(&["Jpan", "Hang", "Hans", "Arab", "Thai"]), word(r)));
        }
        s.push_str(&format!("</{t}>"));
    }
    s.push_str("</a:fontScheme><a:fmtScheme name=\"x\"><a:fillStyleLst/></a:fmtScheme></a:themeElements></a:theme>");
    s
}

fn div(r: &mut Rng, depth: usize) -> String {
    let mut s = format!("<w:div w:id=\"{}\"><w:bodyDiv w:val=\"1\"/>", r.below(2_000_000_000));
    for m in ["w:marLeft", "w:marRight", "w:marTop", "w:marBottom"] {
        if !r.one_in(4) {
            s.push_str(&format!("<{m} w:val=\"{}\"/>", *r.pick(&[0, 1, 720, 4095, 31680])));
        }
    }
    if r.flip() {
        s.push_str("<w:divBdr><w:top w:val=\"none\" w:sz=\"0\" w:space=\"0\" w:color=\"auto\"/><w:bottom w:val=\"single\" w:sz=\"6\" w:space=\"1\" w:color=\"auto\"/></w:divBdr>");
    }
    for _ in 0..r.us(3) {
        if depth < 4 && r.flip() {
            s.push_str("<w:divsChild>");
            for _ in 0..1 + r.us(3) {
                s.push_str(&div(r, depth + 1));
            }
            s.push_str("</w:divsChild>");
        }
    }
    s.push_str("</w:div>");
    s
}

fn web_settings(r: &mut Rng) -> String {
    let mut s = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><w:webSettings xmlns:w=\"{W}\">");
    if !r.one_in(6) {
        s.push_str("<w:divs>");
        for _ in 0..1 + r.us(3) {
            s.push_str(&div(r, 0));
        }
        s.push_str("</w:divs>");
    }
    s.push_str("<w:optimizeForBrowser/><w:allowPNG/></w:webSettings>");
    s
}

/// Paragraphs and tables to put in a box.
fn content(r: &mut Rng) -> Result<String, String> {
    let c = Cfg { props: 6, pprops: 6, tables: *r.pick(&[0, 30]), tracked: *r.pick(&[0, 10]), max_blocks: 1 + r.us(3), ..Cfg::none() }.readable();
    let b = checks::build(r.next(), c)?;
    let s = String::from_utf8(b.pkg.parts["word/document.xml"].clone()).map_err(|_| "not UTF-8")?;
    let from = s.find("<w:body>").ok_or("no body")? + 8;
    let to = s.rfind("<w:sectPr").ok_or("no section")?;
    Ok(s[from..to].to_string())
}

fn frame(r: &mut Rng, inner: &str) -> String {
    let dist = |r: &mut Rng| format!("distT=\"{}\" distB=\"{}\" distL=\"{}\" distR=\"{}\"", r.below(300_000), r.below(300_000), r.below(300_000), r.below(300_000));
    let end = "<wp:extent cx=\"2360930\" cy=\"1404620\"/><wp:effectExtent l=\"0\" t=\"0\" r=\"22860\" b=\"11430\"/>";
    let tail = "<wp:docPr id=\"217\" name=\"Text Box 2\"/><wp:cNvGraphicFramePr/>";
    if r.one_in(3) {
        return format!("<wp:inline {}>{end}{tail}{inner}</wp:inline>", dist(r));
    }
    let at = |r: &mut Rng, al: &[&str]| match r.below(3) {
        0 => format!("<wp:align>{}</wp:align>", r.pick(al)),
        _ => format!("<wp:posOffset>{}</wp:posOffset>", r.below(9_000_000) as i64 - 4_500_000),
    };
    let h = at(r, &["left", "right", "center"]);
    let v = at(r, &["top", "bottom", "center"]);
    format!(
        "<wp:anchor {} simplePos=\"{}\" relativeHeight=\"{}\" behindDoc=\"0\" locked=\"0\" layoutInCell=\"{}\" allowOverlap=\"{}\"><wp:simplePos x=\"{}\" y=\"{}\"/><wp:positionH relativeFrom=\"{}\">{h}</wp:positionH><wp:positionV relativeFrom=\"{}\">{v}</wp:positionV>{end}<wp:wrapSquare wrapText=\"bothSides\"/>{tail}{inner}</wp:anchor>",
        dist(r),
        r.below(2),
        r.below(1 << 32),
        r.below(2),
        r.below(2),
        r.below(1_000_000),
        r.below(1_000_000),
        r.pick(&["character", "column", "insideMargin", "leftMargin", "margin", "outsideMargin", "page", "rightMargin"]),
        r.pick(&["bottomMargin", "insideMargin", "line", "margin", "outsideMargin", "page", "paragraph", "topMargin"]),
    )
}

const SPACES: &str = "xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" xmlns:wps=\"http://schemas.microsoft.com/office/word/2010/wordprocessingShape\" xmlns:wp=\"http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing\" xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:v=\"urn:schemas-microsoft-com:vml\" xmlns:o=\"urn:schemas-microsoft-com:office:office\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\"";

fn text_box(r: &mut Rng) -> Result<String, String> {
    let inside = content(r)?;
    let g = format!("<a:graphic><a:graphicData uri=\"http://schemas.microsoft.com/office/word/2010/wordprocessingShape\"><wps:wsp><wps:cNvSpPr txBox=\"1\"/><wps:spPr bwMode=\"auto\"><a:xfrm><a:off x=\"0\" y=\"0\"/><a:ext cx=\"2360930\" cy=\"1404620\"/></a:xfrm><a:prstGeom prst=\"rect\"><a:avLst/></a:prstGeom><a:solidFill><a:srgbClr val=\"FFFFFF\"/></a:solidFill></wps:spPr><wps:txbx><w:txbxContent>{inside}</w:txbxContent></wps:txbx><wps:bodyPr rot=\"0\" vert=\"horz\"><a:spAutoFit/></wps:bodyPr></wps:wsp></a:graphicData></a:graphic>");
    let f = frame(r, &g);
    if r.one_in(4) {
        return Ok(format!("<w:drawing {SPACES}>{f}</w:drawing>"));
    }
    let back = if r.one_in(4) { String::new() } else { content(r)? };
    Ok(format!(
        "<mc:AlternateContent {SPACES}><mc:Choice Requires=\"wps\"><w:drawing>{f}</w:drawing></mc:Choice><mc:Fallback><w:pict><v:shapetype id=\"_x0000_t202\" coordsize=\"21600,21600\"><v:stroke joinstyle=\"miter\"/></v:shapetype><v:shape id=\"b\" type=\"#_x0000_t202\" style=\"position:absolute\"><v:textbox><w:txbxContent>{back}</w:txbxContent></v:textbox></v:shape></w:pict></mc:Fallback></mc:AlternateContent>"
    ))
}

fn shape(r: &mut Rng, id: Option<&str>) -> Result<String, String> {
    let style = if r.one_in(5) { String::new() } else { format!(" style=\"width:{}pt;height:{}pt;{}\"", r.below(500), r.below(500), word(r)) };
    let data = id.map(|id| format!("<v:imagedata r:id=\"{id}\" o:title=\"{}\"/>", word(r))).unwrap_or_default();
    let inside = if r.one_in(3) { format!("<v:textbox><w:txbxContent>{}</w:txbxContent></v:textbox>", content(r)?) } else { String::new() };
    Ok(format!("<w:pict {SPACES}><v:shapetype id=\"_x0000_t75\" filled=\"f\"><v:stroke joinstyle=\"miter\"/><v:formulas><v:f eqn=\"sum @0 1 0\"/></v:formulas></v:shapetype><v:shape id=\"_x0000_i1025\" type=\"#_x0000_t75\"{style}>{inside}{data}</v:shape></w:pict>"))
}

/// The end of a run, at random. Those that go with the end of a comment may stand between paragraphs.
fn run(s: &str, r: &mut Rng) -> Option<usize> {
    let all: Vec<usize> = s
        .match_indices("</w:r>")
        .map(|m| m.0)
        .filter(|i| !s[i + 6..].starts_with("<w:commentRangeEnd") && !s[..*i].ends_with("/>"))
        .collect();
    (!all.is_empty()).then(|| *r.pick(&all))
}

/// Where `end` is in `s`, at random.
fn spot(s: &str, end: &str, r: &mut Rng) -> Option<usize> {
    let all: Vec<usize> = s.match_indices(end).map(|m| m.0).collect();
    (!all.is_empty()).then(|| *r.pick(&all))
}

/// Puts blocks of a part in content controls, with bookmarks of their own.
pub fn controls(p: &mut Package, r: &mut Rng) -> Result<bool, String> {
    let parts: Vec<String> = p
        .parts
        .keys()
        .filter(|n| *n == "word/document.xml" || ((n.starts_with("word/header") || n.starts_with("word/footer")) && n.ends_with(".xml")))
        .cloned()
        .collect();
    if parts.is_empty() {
        return Ok(false);
    }
    let part = r.pick(&parts).clone();
    let mut x = xml::parse_bytes(&p.parts[&part])?;
    x.attrs.retain(|a| a.0 != "mc:Ignorable");
    let top = if x.name == "w:document" {
        let Some(Node::E(b)) = x.kids.iter_mut().find(|k| matches!(k, Node::E(e) if e.name == "w:body")) else { return Ok(false) };
        b
    } else {
        &mut x
    };
    let fit = |k: &Node| match k {
        Node::E(e) => match e.name.as_str() {
            "w:p" => e.find("w:pPr").is_none_or(|p| p.find("w:sectPr").is_none()),
            "w:tbl" | "w:bookmarkStart" | "w:bookmarkEnd" => true,
            _ => false,
        },
        _ => false,
    };
    let block = |k: &Node| matches!(k, Node::E(e) if e.name == "w:p" || e.name == "w:tbl");
    let at: Vec<usize> = (0..top.kids.len()).filter(|i| fit(&top.kids[*i])).collect();
    if at.is_empty() {
        return Ok(false);
    }
    let from = *r.pick(&at);
    let mut to = from + 1;
    while to < top.kids.len() && fit(&top.kids[to]) && !r.one_in(4) {
        to += 1;
    }
    if !top.kids[from..to].iter().any(block) {
        return Ok(false);
    }
    let mut inside: Vec<Node> = top.kids.drain(from..to).collect();
    if r.flip() {
        // ids of bookmarks are their own
        let id = 5_000_000 + r.below(1_000_000);
        let a = r.us(inside.len() + 1);
        let b = a + r.us(inside.len() - a + 1);
        inside.insert(b, Node::E(El::new("w:bookmarkEnd").a("w:id", id)));
        inside.insert(a, Node::E(El::new("w:bookmarkStart").a("w:id", id).a("w:name", format!("ctl{id}"))));
    }
    let mut content = El::new("w:sdtContent");
    content.kids = inside;
    let mut sdt = El::new("w:sdt").k(El::new("w:sdtPr").k(El::new("w:id").a("w:val", r.below(1 << 31)))).k(content);
    if r.one_in(4) {
        sdt = El::new("w:sdt").k(El::new("w:sdtPr")).k(El::new("w:sdtContent").k(sdt));
    }
    top.kids.insert(from, Node::E(sdt));
    let b = xml::write(&x, true).into_bytes();
    p.parts.insert(part, b);
    Ok(true)
}

/// What was added, by kind.
pub fn graft(p: &mut Package, r: &mut Rng) -> Result<Vec<&'static str>, String> {
    let mut done = vec![];
    if !p.parts.contains_key("word/document.xml") {
        return Ok(done);
    }
    if r.flip() {
        let t = theme(r);
        relate(p, "rIdTheme7", "theme", "theme/theme1.xml", Some("application/vnd.openxmlformats-officedocument.theme+xml"), t.into_bytes());
        done.push("themes");
    }
    if r.flip() {
        let t = web_settings(r);
        relate(
            p,
            "rIdWeb7",
            "webSettings",
            "webSettings.xml",
            Some("application/vnd.openxmlformats-officedocument.wordprocessingml.webSettings+xml"),
            t.into_bytes(),
        );
        done.push("web settings");
        // paragraphs of such a division
        for _ in 0..r.us(3) {
            let mut s = String::from_utf8_lossy(&p.parts["word/document.xml"]).into_owned();
            let all: Vec<usize> = s
                .match_indices("<w:p w14:paraId=\"")
                .filter_map(|(i, _)| {
                    let e = i + s[i..].find('>')? + 1;
                    s[e..].starts_with("<w:pPr>").then_some(e + 7)
                })
                .collect();
            if !all.is_empty() {
                s.insert_str(*r.pick(&all), &format!("<w:divId w:val=\"{}\"/>", r.below(2_000_000_000)));
                p.parts.insert("word/document.xml".into(), s.into_bytes());
                done.push("paragraphs in divisions");
            }
        }
    }
    for _ in 0..r.us(4) {
        let parts: Vec<String> =
            p.parts.keys().filter(|n| n.starts_with("word/header") || n.starts_with("word/footer") || *n == "word/comments.xml").cloned().collect();
        let part = if parts.is_empty() || !r.one_in(4) { "word/document.xml".to_string() } else { r.pick(&parts).clone() };
        let mut s = String::from_utf8_lossy(&p.parts[&part]).into_owned();
        let Some(i) = run(&s, r) else { continue };
        let b = text_box(r)?;
        s.insert_str(i, &b);
        p.parts.insert(part, s.into_bytes());
        done.push("text boxes");
    }
    let mut media = false;
    for _ in 0..r.us(4) {
        let mut s = String::from_utf8_lossy(&p.parts["word/document.xml"]).into_owned();
        let Some(i) = run(&s, r) else { continue };
        if !media {
            relate(p, "rIdShape7", "image", "media/shape7.png", None, png(r.next(), 2, 2));
            if !String::from_utf8_lossy(&p.parts["[Content_Types].xml"]).contains("Extension=\"png\"") {
                before(p, "[Content_Types].xml", "</Types>", "<Default Extension=\"png\" ContentType=\"image/png\"/>");
            }
            media = true;
        }
        let id = (!r.one_in(4)).then_some("rIdShape7");
        s.insert_str(i, &shape(r, id)?);
        p.parts.insert("word/document.xml".into(), s.into_bytes());
        done.push("shapes");
    }
    if let Some(b) = p.parts.get("word/styles.xml") {
        let mut s = String::from_utf8_lossy(b).into_owned();
        if r.one_in(3) {
            if let Some(i) = spot(&s, "</w:style>", r) {
                s.insert_str(i, "<w:tblStylePr w:type=\"firstRow\"><w:pPr><w:jc w:val=\"center\"/></w:pPr><w:rPr><w:b/><w:color w:val=\"123456\"/></w:rPr><w:tblPr/><w:tcPr><w:shd w:val=\"clear\" w:color=\"auto\" w:fill=\"D9E2F3\"/></w:tcPr></w:tblStylePr>");
                done.push("conditional formats");
            }
        }
        if r.one_in(3) {
            if let Some(i) = s.find("</w:docDefaults>") {
                s.insert_str(i + 16, "<w:latentStyles w:defLockedState=\"0\" w:defUIPriority=\"99\" w:count=\"376\"><w:lsdException w:name=\"Normal\" w:uiPriority=\"0\" w:qFormat=\"1\"/><w:lsdException w:name=\"heading 1\" w:uiPriority=\"9\"/></w:latentStyles>");
                done.push("latent styles");
            }
        }
        p.parts.insert("word/styles.xml".into(), s.into_bytes());
    }
    for _ in 0..r.us(3) {
        if controls(p, r)? {
            done.push("content controls around blocks");
        }
    }
    Ok(done)
}
