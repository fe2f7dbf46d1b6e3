//! The checks on generated documents: what is built, and what its package and the model read from it
//! have to say.

use crate::check::*;
use crate::cmp::{self, Side};
use crate::gen::*;
use crate::pkg::{self, Package};
use crate::util::{hash, Rng};
use crate::view::{self, Canon, View};
use crate::xml::{El, Node};
use docx_rs::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;

pub const PLAIN: Canon = Canon { para_ids: false };

pub fn pack(d: Docx, rendered: bool) -> Result<Vec<u8>, String> {
    let mut buf = Cursor::new(vec![]);
    let r = if rendered { d.build().pack(&mut buf) } else { d.pack(&mut buf) };
    match r {
        Ok(()) => Ok(buf.into_inner()),
        Err(e) => Err(format!("saving to memory failed: {e}")),
    }
}

pub struct Built {
    pub g: Gen,
    pub bytes: Vec<u8>,
    pub pkg: Package,
    pub want: View,
}

/// Builds and saves document number `seed`.
pub fn build(seed: u64, cfg: Cfg) -> Result<Built, String> {
    let mut g = Gen::new(seed, cfg);
    let d = g.docx();
    let rendered = g.r.flip();
    let bytes = pack(d, rendered)?;
    let pkg = cmp::open(&bytes)?;
    let want = cmp::want(&g.e, PLAIN);
    Ok(Built { g, bytes, pkg, want })
}

fn count(cx: &mut Ctx, g: &Gen) {
    let c = &g.e.counts;
    for (k, n) in [
        ("paragraphs", c.paras),
        ("runs", c.runs),
        ("texts", c.texts),
        ("run properties", c.props),
        ("tables", c.tables),
        ("cells", c.cells),
        ("links", c.links),
        ("bookmarks", c.marks),
        ("comments", c.comments),
        ("footnotes", c.notes),
        ("pictures", c.images),
        ("tracked changes", c.tracked),
        ("field parts", c.fields),
        ("content controls", c.sdts),
        ("sections", c.sections),
        ("headers and footers", c.headers),
        ("styles", c.styles),
        ("numbering levels", c.levels),
        ("settings", c.settings),
        ("properties, items and add-ins", c.items),
        ("tables of contents", c.tocs),
    ] {
        if n > 0 {
            cx.obs.add(k, n);
        }
    }
}

fn key(v: &View) -> u64 {
    let mut h = hash(v.body.flat().as_bytes());
    for e in [&v.comments, &v.styles, &v.abstracts, &v.nums, &v.settings, &v.props, &v.items] {
        h = crate::util::mix(h ^ hash(e.flat().as_bytes()));
    }
    h
}

fn note(cx: &mut Ctx, seed: u64, b: &Built, nontrivial: bool) {
    count(cx, &b.g);
    cx.obs.add("package bytes", b.bytes.len() as u64);
    cx.obs.add("elements compared", b.want.body.count() as u64);
    if nontrivial {
        cx.obs.hit(key(&b.want));
        let body = view::cut(&b.want.body.flat());
        cx.obs.sample(|| json!({"case": seed.to_string(), "body starts": body}));
    }
}

/// The saved package says what was asked for.
fn written(b: &Built, sides: &[Side]) -> Out {
    let v = view::view(&b.pkg, PLAIN)?;
    cmp::compare(&b.want, &v, sides, false).map_err(|e| format!("saved package: {e}"))
}

/// And so does what the reader makes of it, saved again.
fn reread(b: &Built, sides: &[Side], cx: &mut Ctx) -> Out {
    let d = read_docx(&b.bytes).map_err(|e| format!("a saved document cannot be read: {e}"))?;
    let again = pack(d, true)?;
    cx.obs.one("documents read back");
    let p = cmp::open(&again)?;
    let v = view::view(&p, PLAIN)?;
    cmp::compare(&cmp::as_read(&b.want), &v, sides, true).map_err(|e| format!("read back and saved again: {e}"))
}

pub fn size(c: Cfg, seed: u64) -> Cfg {
    // mostly small documents, some large
    let n = match seed % 16 {
        0 => 40,
        1..=3 => 12,
        _ => 5,
    };
    Cfg { max_blocks: n, ..c }
}

/// Every third document has a little of everything around what a check is about.
pub fn wide(c: Cfg, seed: u64) -> Cfg {
    if Rng::new(seed ^ 0x31de).below(3) != 0 {
        return c;
    }
    let f = Cfg::full();
    Cfg {
        props: c.props.max(f.props / 2),
        pprops: c.pprops.max(f.pprops / 2),
        tables: c.tables.max(f.tables / 2),
        sdt: c.sdt.max(f.sdt / 2),
        links: c.links.max(f.links / 2),
        bookmarks: c.bookmarks.max(f.bookmarks / 2),
        comments: c.comments.max(f.comments / 2),
        footnotes: if c.readable { c.footnotes } else { c.footnotes.max(f.footnotes / 2) },
        images: c.images.max(f.images / 2),
        tracked: c.tracked.max(f.tracked / 2),
        fields: c.fields.max(f.fields / 2),
        toc: c.toc.max(f.toc),
        sections: c.sections.max(f.sections / 2),
        headers: c.headers.max(f.headers / 2),
        numbering: c.numbering.max(f.numbering / 2),
        styles: c.styles.max(f.styles / 2),
        settings: c.settings.max(f.settings / 2),
        custom: c.custom.max(f.custom / 2),
        para_ids: c.para_ids.max(f.para_ids / 2),
        stretch: c.stretch && !c.readable,
        header_links: c.header_links && !c.readable,
        ..c
    }
}

// ---------------------------------------------------------------- C01

/// Every string that carries a marker, with the place it is in.
fn strings(v: &View) -> BTreeMap<(String, String, String), i64> {
    let mut m = BTreeMap::new();
    let marked = |s: &str| {
        let b = s.as_bytes();
        (0..b.len()).any(|i| b[i] == b'm' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()))
    };
    for (n, e) in [
        ("body", &v.body),
        ("comments", &v.comments),
        ("styles", &v.styles),
        ("abstracts", &v.abstracts),
        ("nums", &v.nums),
        ("settings", &v.settings),
        ("core", &v.core),
        ("props", &v.props),
        ("items", &v.items),
        ("webext", &v.webext),
    ] {
        e.walk(|x| {
            for (k, val) in &x.attrs {
                if marked(val) {
                    *m.entry((n.to_string(), format!("{}@{k}", x.name), val.clone())).or_insert(0) += 1;
                }
            }
            for k in &x.kids {
                if let Node::T(s) = k {
                    if marked(s) {
                        *m.entry((n.to_string(), x.name.clone(), s.clone())).or_insert(0) += 1;
                    }
                }
            }
        });
    }
    m
}

fn c01(seed: u64, cx: &mut Ctx) -> Out {
    let mut c = size(Cfg::full(), seed);
    c.props = 3;
    c.pprops = 3;
    let b = build(seed, c)?;
    let mut parts = 0;
    for name in b.pkg.parts.keys().filter(|n| Package::is_xml(n)) {
        b.pkg.xml(name).map_err(|e| format!("{name} is not well-formed: {e}"))?;
        parts += 1;
    }
    cx.obs.add("XML parts parsed", parts);
    let v = view::view(&b.pkg, PLAIN)?;
    let (want, got) = (strings(&b.want), strings(&v));
    cx.obs.add("marked strings found in place", want.len() as u64);
    let places: BTreeSet<String> = want.keys().map(|k| format!("{} {}", k.0, k.1)).collect();
    for p in places {
        cx.obs.one(&format!("place {p}"));
    }
    for (k, n) in &want {
        if got.get(k) != Some(n) {
            return Err(format!(
                "{}: {} should hold {:?} {} times, has it {} times",
                k.0,
                k.1,
                k.2,
                n,
                got.get(k).unwrap_or(&0)
            ));
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) && !k.1.starts_with("we:snapshot") {
            return Err(format!("{}: {} holds {:?}, which nobody gave", k.0, k.1, k.2));
        }
    }
    note(cx, seed, &b, want.len() > 5);
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 2);
    let pc = |r: &mut Rng| [0, 0, 10, 40, 90][r.us(5)];
    let c = Cfg {
        tables: r.below(20),
        sdt: r.below(20),
        links: pc(&mut r),
        comments: pc(&mut r),
        footnotes: pc(&mut r),
        images: pc(&mut r) / 2,
        tracked: r.below(20),
        sections: pc(&mut r),
        headers: pc(&mut r),
        numbering: pc(&mut r),
        styles: pc(&mut r),
        settings: pc(&mut r),
        custom: pc(&mut r),
        toc: r.below(6),
        bookmarks: r.below(10),
        para_ids: r.below(10),
        hostile: r.flip(),
        ..Cfg::none()
    };
    let b = build(seed, size(c, seed))?;
    let cl = pkg::check_closure(&b.pkg);
    cx.obs.add("parts", cl.parts as u64);
    cx.obs.add("relationships", cl.rels as u64);
    cx.obs.add("references resolved", cl.refs as u64);
    if let Some(p) = cl.problems.first() {
        return Err(p.clone());
    }
    let mut kinds = BTreeSet::new();
    for n in b.pkg.parts.keys() {
        kinds.insert(n.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
    }
    let sig = kinds.iter().cloned().collect::<Vec<_>>().join(",");
    count(cx, &b.g);
    cx.obs.add("package bytes", b.bytes.len() as u64);
    if cl.parts > 8 && cl.refs > 0 {
        cx.obs.hit(hash(format!("{sig}{}{}{}", cl.parts, cl.rels, cl.refs).as_bytes()));
        cx.obs.sample(|| json!({"case": seed.to_string(), "parts": b.pkg.order}));
    }
    // what a re-saved package says has to hold together too
    if seed % 3 == 0 {
        let d = read_docx(&b.bytes).map_err(|e| format!("a saved document cannot be read: {e}"))?;
        if b.g.e.counts.notes == 0 && !header_links(&b.want.body) {
            let again = pack(d, true)?;
            let cl = pkg::check_closure(&cmp::open(&again)?);
            cx.obs.one("re-saved packages");
            if let Some(p) = cl.problems.first() {
                return Err(format!("read and saved again: {p}"));
            }
        }
    }
    Ok(())
}

fn header_links(e: &El) -> bool {
    let mut found = false;
    e.walk(|x| {
        if x.name == "w:headerReference" || x.name == "w:footerReference" {
            x.walk(|y| found |= y.name == "w:hyperlink" && y.attr("url").is_some());
        }
    });
    found
}

// ---------------------------------------------------------------- C03, C04

fn c03(seed: u64, cx: &mut Ctx) -> Out {
    let c = Cfg { tables: 14, sdt: 10, fields: 14, headers: 10, ..Cfg::none() };
    let mut c = size(c, seed);
    c.readable = true;
    c.header_links = false;
    let b = build(seed, wide(c, seed))?;
    written(&b, &[Side::Body])?;
    reread(&b, &[Side::Body], cx)?;
    note(cx, seed, &b, b.g.e.counts.runs > 3);
    cx.obs.max("elements", b.want.body.count() as u64);
    Ok(())
}

fn c04(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 4);
    let mut c = Cfg {
        props: *r.pick(&[5, 20, 50]),
        pprops: *r.pick(&[5, 20, 50]),
        tables: 14,
        sections: 10,
        links: 4,
        tracked: 4,
        settings: 20,
        hostile: r.flip(),
        ..Cfg::none()
    };
    c = size(c, seed);
    let read = r.flip();
    if read {
        c = c.readable();
    }
    let b = build(seed, wide(c, seed))?;
    written(&b, &[Side::Body])?;
    if read {
        reread(&b, &[Side::Body], cx)?;
    }
    b.want.body.walk(|x| {
        if matches!(x.name.as_str(), "w:rPr" | "w:pPr" | "w:tblPr" | "w:trPr" | "w:tcPr" | "w:sectPr") {
            for k in x.els() {
                cx.obs.one(&format!("{}/{}", x.name, k.name));
            }
        }
    });
    note(cx, seed, &b, b.g.e.counts.props > 3);
    Ok(())
}

// ---------------------------------------------------------------- the rest

fn base() -> Cfg {
    Cfg { tables: 10, sdt: 6, tracked: 6, ..Cfg::none() }
}

fn c09(seed: u64, cx: &mut Ctx) -> Out {
    let mut c = size(Cfg { comments: 30, links: 6, headers: 0, bookmarks: 3, ..base() }, seed);
    c.readable = true;
    c.hostile = seed % 2 == 0;
    let b = build(seed, wide(c, seed))?;
    written(&b, &[Side::Body, Side::Comments])?;
    reread(&b, &[Side::Body, Side::Comments], cx)?;
    if seed % 3 == 0 {
        resolved(&b, &mut Rng::new(seed ^ 9), cx)?;
    }
    if seed % 5 == 0 {
        listed(&b, cx)?;
    }
    b.want.comments.walk(|x| {
        if x.name == "w:comment" && x.attr("parent").is_some() {
            cx.obs.one("replies");
        }
    });
    note(cx, seed, &b, b.g.e.counts.comments > 0);
    Ok(())
}

/// The lists of comments that are reported on their own are the comments of the document.
fn listed(b: &Built, cx: &mut Ctx) -> Out {
    let mut d = read_docx(&pkg::zip(&b.pkg, None)).map_err(|e| format!("cannot be read: {e}"))?;
    let json = |s: String| serde_json::from_str::<serde_json::Value>(&s).map_err(|e| format!("not JSON: {e}"));
    let want = json(d.json())?["comments"].take();
    let got = json(d.comments_json())?;
    if got != want {
        return Err(format!("the comments {want} are listed as {got}"));
    }
    let got = json(d.json_with_update_comments())?["comments"].take();
    if got != want {
        return Err(format!("the comments {want} are listed with the document as {got}"));
    }
    cx.obs.add("comments listed", want["comments"].as_array().map_or(0, |a| a.len()) as u64);
    Ok(())
}

/// Paragraphs of comments with their parent and whether they are resolved.
fn threads_of(p: &Package) -> Result<BTreeMap<String, (Option<String>, bool)>, String> {
    let Some(x) = p.related(&p.main_part()?, "commentsExtended")? else {
        return Ok(BTreeMap::new());
    };
    let on = |v: Option<&str>| matches!(v, Some("1" | "true" | "on"));
    Ok(p.xml(&x)?
        .all("w15:commentEx")
        .map(|e| {
            let parent = e.attr("w15:paraIdParent").map(String::from);
            (e.attr("w15:paraId").unwrap_or("").to_string(), (parent, on(e.attr("w15:done"))))
        })
        .collect())
}

/// Comments another program has resolved stay resolved.
fn resolved(b: &Built, r: &mut Rng, cx: &mut Ctx) -> Out {
    let mut want = threads_of(&b.pkg)?;
    if want.is_empty() {
        return Ok(());
    }
    let mut top = El::new("w15:commentsEx").a("xmlns:w15", "http://schemas.microsoft.com/office/word/2012/wordml");
    for (id, (parent, done)) in want.iter_mut() {
        *done = r.flip();
        let e = El::new("w15:commentEx").a("w15:paraId", &*id).opt("w15:paraIdParent", parent.as_deref());
        top.push(e.a("w15:done", *done as u8));
        if *done {
            cx.obs.one("paragraphs of resolved comments");
        }
    }
    let mut p = b.pkg.clone();
    let part = p.related(&p.main_part()?, "commentsExtended")?.ok_or("no threads")?;
    p.parts.insert(part, crate::xml::write(&top, true).into_bytes());
    let d = read_docx(&pkg::zip(&p, None)).map_err(|e| format!("cannot be read: {e}"))?;
    let got: BTreeMap<String, (Option<String>, bool)> =
        d.comments_extended.children.iter().map(|e| (e.paragraph_id.clone(), (e.parent_paragraph_id.clone(), e.done))).collect();
    if got != want {
        return Err(format!("the threads of comments {want:?} are read as {got:?}"));
    }
    let got = threads_of(&pkg::load(&pack(d, r.flip())?)?)?;
    if got != want {
        return Err(format!("the threads of comments {want:?} are saved again as {got:?}"));
    }
    Ok(())
}

fn c10(seed: u64, cx: &mut Ctx) -> Out {
    let c = Cfg { footnotes: 30, links: 4, headers: 0, props: 3, hostile: seed % 2 == 0, ..base() };
    let b = build(seed, wide(size(c, seed), seed))?;
    written(&b, &[Side::Body])?;
    note(cx, seed, &b, b.g.e.counts.notes > 0);
    cx.obs.max("footnotes in one document", b.g.e.counts.notes);
    Ok(())
}

fn c11(seed: u64, cx: &mut Ctx) -> Out {
    let c = Cfg { images: 40, headers: 20, sections: 6, links: 4, hostile: false, readable: true, header_links: false, ..base() };
    let b = build(seed, wide(size(c, seed), seed))?;
    written(&b, &[Side::Body])?;
    reread(&b, &[Side::Body], cx)?;
    pictures_read(&b, cx)?;
    note(cx, seed, &b, b.g.e.counts.images > 0);
    Ok(())
}

/// What the reader returns for pictures: the bytes of the media parts, with and without previews.
fn pictures_read(b: &Built, cx: &mut Ctx) -> Out {
    let main = b.pkg.main_part()?;
    let mut media: BTreeSet<(String, Vec<u8>)> = BTreeSet::new();
    let mut all: BTreeSet<Vec<u8>> = BTreeSet::new();
    let rels = b.pkg.rels(&main)?;
    for r in rels.iter().filter(|r| pkg::kind(&r.typ) == "image") {
        media.insert((r.id.clone(), b.pkg.parts[&r.part].clone()));
        all.insert(b.pkg.parts[&r.part].clone());
    }
    for h in rels.iter().filter(|r| matches!(pkg::kind(&r.typ), "header" | "footer")) {
        for r in b.pkg.rels(&h.part)?.iter().filter(|r| pkg::kind(&r.typ) == "image") {
            all.insert(b.pkg.parts[&r.part].clone());
        }
    }
    for previews in [true, false] {
        let o = ReadDocxOptions::default().with_image_previews(previews);
        let d = read_docx_with_options(&b.bytes, o).map_err(|e| format!("cannot be read: {e}"))?;
        let got: BTreeSet<(String, Vec<u8>)> = d.images.iter().map(|i| (i.0.clone(), i.2 .0.clone())).collect();
        if let Some(m) = media.iter().find(|m| !got.contains(m)) {
            return Err(format!("the reader does not return the picture {} of the document (previews {previews})", m.0));
        }
        let bytes: BTreeSet<Vec<u8>> = got.into_iter().map(|g| g.1).collect();
        if bytes != all {
            return Err(format!(
                "{} different pictures are in the package, the reader returns {}, or other bytes (previews {previews})",
                all.len(),
                bytes.len()
            ));
        }
        for i in &d.images {
            cx.obs.one("pictures read");
            if previews {
                let png = &i.3 .0;
                if !png.is_empty() {
                    cx.obs.one("previews read");
                    if shown(png) != shown(&i.2 .0) {
                        return Err("a preview does not show the picture it stands for".into());
                    }
                } else if shown(&i.2 .0).starts_with("px:") {
                    return Err("a picture that can be shown has no preview".into());
                }
            } else if !i.3 .0.is_empty() {
                return Err("a preview was made although none was asked for".into());
            }
        }
    }
    Ok(())
}

fn c12(seed: u64, cx: &mut Ctx) -> Out {
    let c = Cfg { sections: 40, headers: 50, settings: 20, hostile: false, ..base() };
    let mut c = size(c, seed);
    let read = seed % 2 == 0;
    if read {
        c = c.readable();
    }
    let b = build(seed, wide(c, seed))?;
    written(&b, &[Side::Body, Side::Settings])?;
    if read {
        reread(&b, &[Side::Body, Side::Settings], cx)?;
    }
    note(cx, seed, &b, b.g.e.counts.headers > 0 || b.g.e.counts.sections > 0);
    cx.obs.max("sections in one document", b.g.e.counts.sections);
    Ok(())
}

fn c13(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 13);
    let c = Cfg {
        numbering: 80,
        styles: 80,
        headers: 15,
        footnotes: 3,
        comments: 4,
        props: *r.pick(&[5, 20]),
        pprops: *r.pick(&[5, 20]),
        hostile: r.flip(),
        max_blocks: 5,
        ..base()
    };
    let read = r.flip();
    let c = if read { c.readable() } else { c };
    let b = build(seed, wide(c, seed))?;
    written(&b, &[Side::Styles, Side::Defaults, Side::Numbering])?;
    // references lead to definitions
    let mut asked = BTreeSet::new();
    b.want.body.walk(|x| {
        if x.name == "w:numId" {
            asked.extend(x.attr("w:val").map(String::from));
        }
    });
    cx.obs.add("numberings referred to", asked.len() as u64);
    if !asked.is_empty() {
        let main = b.pkg.main_part()?;
        if b.pkg.related(&main, "numbering")?.is_none() {
            return Err("numberings are used but the document has no relationship to them".into());
        }
    }
    if read {
        reread(&b, &[Side::Styles, Side::Defaults, Side::Numbering], cx)?;
    }
    note(cx, seed, &b, b.g.e.counts.styles + b.g.e.counts.levels > 0);
    Ok(())
}

fn c14(seed: u64, cx: &mut Ctx) -> Out {
    let mut c = Cfg { links: 40, bookmarks: 25, toc: 3, headers: 20, sections: 8, hostile: seed % 4 != 0, ..base() };
    let read = seed % 2 == 0;
    if read {
        c = c.readable();
    }
    let b = build(seed, wide(size(c, seed), seed))?;
    written(&b, &[Side::Body])?;
    if read {
        reread(&b, &[Side::Body], cx)?;
    }
    note(cx, seed, &b, b.g.e.counts.links + b.g.e.counts.marks > 0);
    Ok(())
}

fn c16(seed: u64, cx: &mut Ctx) -> Out {
    let c = Cfg { tracked: 45, tables: 12, links: 6, sdt: 3, props: 3, pprops: 3, comments: 4, hostile: seed % 4 != 0, readable: true, stretch: false, ..Cfg::none() };
    let b = build(seed, wide(size(c, seed), seed))?;
    written(&b, &[Side::Body])?;
    reread(&b, &[Side::Body], cx)?;
    b.want.body.walk(|x| {
        if matches!(
            x.name.as_str(),
            "w:ins" | "w:del" | "w:moveFrom" | "w:moveTo" | "w:pPrChange" | "w:rPrChange"
        ) {
            cx.obs.one(&x.name);
        }
    });
    note(cx, seed, &b, b.g.e.counts.tracked > 0);
    Ok(())
}

fn c22(seed: u64, cx: &mut Ctx) -> Out {
    let c = Cfg { settings: 90, custom: 95, headers: 10, max_blocks: 2, hostile: seed % 4 != 0, readable: true, ..Cfg::none() };
    let b = build(seed, wide(c, seed))?;
    written(&b, &[Side::Settings, Side::Core, Side::Props, Side::Items, Side::Webext])?;
    if let Some(part) = b.pkg.related("", "custom-properties")? {
        let mut pids = BTreeSet::new();
        for x in b.pkg.xml(&part)?.els() {
            let pid = x.attr("pid").and_then(|p| p.parse::<u32>().ok()).unwrap_or(0);
            if pid < 2 || !pids.insert(pid) {
                return Err(format!("{part}: a custom property has the number {pid}, which is taken or not allowed"));
            }
            cx.obs.one("numbers of custom properties");
        }
    }
    reread(&b, &[Side::Settings, Side::Props], cx)?;
    note(cx, seed, &b, b.g.e.counts.items + b.g.e.counts.settings > 0);
    Ok(())
}

fn in_comment(p: Paragraph) -> Docx {
    let c = Comment::new(1).author("a").add_paragraph(p);
    Docx::new().add_paragraph(
        Paragraph::new().add_comment_start(c).add_run(Run::new().add_text("t")).add_comment_end(1),
    )
}

fn in_footnote(p: Paragraph) -> Docx {
    let mut n = Footnote::new();
    n.add_content(p);
    Docx::new().add_paragraph(Paragraph::new().add_run(Run::new().add_footnote_reference(n)))
}

fn a_link() -> Paragraph {
    Paragraph::new().add_hyperlink(
        Hyperlink::new("https://example.com/probe", HyperlinkType::External).add_run(Run::new().add_text("link")),
    )
}

fn a_picture() -> Paragraph {
    Paragraph::new().add_run(Run::new().add_image(Pic::new(&crate::gen::png(3, 2, 2)).id("probe")))
}

/// A document of one thing is a closed package.
fn closed(d: Docx, cx: &mut Ctx) -> Out {
    let p = cmp::open(&pack(d, false)?)?;
    let cl = pkg::check_closure(&p);
    cx.obs.add("parts", cl.parts as u64);
    match cl.problems.first() {
        // ids of links are drawn from a counter
        Some(p) => Err(p.split_inclusive("rIdHyperlink").map(|x| x.trim_start_matches(|c: char| c.is_ascii_digit())).collect()),
        None => Ok(()),
    }
}

/// The link of a part leads to its target.
fn leads(d: Docx, part: &str, cx: &mut Ctx) -> Out {
    let p = cmp::open(&pack(d, false)?)?;
    let main = p.main_part()?;
    let part = p.related(&main, part)?.ok_or("the part of the link is missing")?;
    let mut id = None;
    p.xml(&part)?.walk(|x| {
        if x.name == "w:hyperlink" {
            id = x.attr("r:id").map(String::from);
        }
    });
    let id = id.ok_or("the link is not written")?;
    cx.obs.one("links");
    match p.rels(&part)?.iter().find(|r| r.id == id) {
        Some(r) if r.target == "https://example.com/probe" => Ok(()),
        Some(r) => Err(format!("the link leads to {}", r.target)),
        None => Err("the link leads nowhere: its part has no such relationship".into()),
    }
}

pub const ALL: &[Check] = &[
    Check {
        id: "C01",
        rule: "random documents with every feature and hostile XML-legal strings in every string position; non-trivial: more than five marked strings found in place",
        assumptions: &["carriage returns, and line breaks in run text, are left out: the API defines them away"],
        level: "exploration",
        cases: 4000,
        deep: 12,
        threads: 8,
        floor: 200,
        case: c01,
        probes: &[],
    },
    Check {
        id: "C02",
        rule: "random documents over subsets of the features that add parts; non-trivial: more than eight parts and at least one reference by relationship id",
        assumptions: &[],
        level: "exploration",
        cases: 5000,
        deep: 12,
        threads: 8,
        floor: 200,
        case: c02,
        probes: &[
            ("comment-link", |cx| closed(in_comment(a_link()), cx)),
            ("footnote-link", |cx| closed(in_footnote(a_link()), cx)),
            ("comment-picture", |cx| closed(in_comment(a_picture()), cx)),
            ("footnote-picture", |cx| closed(in_footnote(a_picture()), cx)),
            ("taskpanes", |cx| closed(Docx::new().taskpanes(), cx)),
        ],
    },
    Check {
        id: "C03",
        rule: "random content trees (paragraphs, nested tables, content controls, fields, headers); non-trivial: more than three runs",
        assumptions: &["content controls inside paragraphs are dissolved by reading (known finding)"],
        level: "exploration",
        cases: 15000,
        deep: 4,
        threads: 8,
        floor: 200,
        case: c03,
        probes: &[],
    },
    Check {
        id: "C04",
        rule: "random documents dense in formatting of runs, paragraphs, tables, rows, cells and sections; non-trivial: more than three run properties",
        assumptions: &["values are taken from the ranges OOXML allows"],
        level: "exploration",
        cases: 10000,
        deep: 6,
        threads: 8,
        floor: 200,
        case: c04,
        probes: &[],
    },
    Check {
        id: "C09",
        rule: "random documents dense in comments, replies and placements; non-trivial: at least one comment",
        assumptions: &["every comment ends with a paragraph, as the file format wants"],
        level: "exploration",
        cases: 6000,
        deep: 8,
        threads: 8,
        floor: 200,
        case: c09,
        probes: &[],
    },
    Check {
        id: "C10",
        rule: "random documents dense in footnotes; non-trivial: at least one footnote",
        assumptions: &["the library does not read footnotes (known finding), so the saved package decides"],
        level: "exploration",
        cases: 15000,
        deep: 4,
        threads: 8,
        floor: 200,
        case: c10,
        probes: &[],
    },
    Check {
        id: "C11",
        rule: "random documents dense in pictures (body, tables, tracked changes, headers, footers); non-trivial: at least one picture",
        assumptions: &["equality of pictures is equality of bytes, or of pixels where the library converts"],
        level: "exploration",
        cases: 7000,
        deep: 5,
        threads: 8,
        floor: 200,
        case: c11,
        probes: &[],
    },
    Check {
        id: "C12",
        rule: "random documents with many sections, headers and footers of all kinds in any call order; non-trivial: at least one section break, header or footer",
        assumptions: &[],
        level: "exploration",
        cases: 10000,
        deep: 4,
        threads: 8,
        floor: 200,
        case: c12,
        probes: &[],
    },
    Check {
        id: "C13",
        rule: "random sets of styles, abstract numberings, instances and overrides with references; non-trivial: at least one style or level",
        assumptions: &[],
        level: "exploration",
        cases: 14000,
        deep: 4,
        threads: 8,
        floor: 200,
        case: c13,
        probes: &[],
    },
    Check {
        id: "C14",
        rule: "random documents dense in hyperlinks and bookmarks; non-trivial: at least one of them",
        assumptions: &[],
        level: "exploration",
        cases: 9000,
        deep: 5,
        threads: 8,
        floor: 200,
        case: c14,
        probes: &[
            ("comment-link", |cx| leads(in_comment(a_link()), "comments", cx)),
            ("footnote-link", |cx| leads(in_footnote(a_link()), "footnotes", cx)),
        ],
    },
    Check {
        id: "C16",
        rule: "random documents dense in tracked insertions, deletions, moves and property changes; non-trivial: at least one",
        assumptions: &[],
        level: "exploration",
        cases: 11000,
        deep: 4,
        threads: 8,
        floor: 200,
        case: c16,
        probes: &[],
    },
    Check {
        id: "C22",
        rule: "random settings, document variables, core and custom properties, custom XML items, web extensions; non-trivial: at least one of them",
        assumptions: &["custom XML compares up to surrounding white space"],
        level: "exploration",
        cases: 24000,
        deep: 4,
        threads: 8,
        floor: 200,
        case: c22,
        probes: &[],
    },
];
