//! Tables of contents.

use crate::check::*;
use crate::checks::{pack, size, PLAIN};
use crate::cmp::{self, Side};
use crate::gen::*;
use crate::util::{hash, mix};
use crate::view;
use crate::xml::El;
use docx_rs::*;
use serde_json::json;
use std::collections::BTreeMap;

/// A paragraph that may be a heading.
struct Head {
    marker: String,
    style: Option<usize>,
    text: String,
}

struct Sty {
    id: String,
    heading: Option<usize>,
}

struct Maker {
    g: Gen,
    styles: Vec<Sty>,
    heads: Vec<Head>,
    names: Vec<String>,
    next_mark: usize,
    wrong: Option<String>,
}

impl Maker {
    /// A paragraph, and what an entry for it says.
    fn para(&mut self) -> Paragraph {
        let r = &mut self.g.r;
        let style = if !self.styles.is_empty() && r.pct(60) { Some(r.us(self.styles.len())) } else { None };
        let marker = self.g.m();
        let mut text = String::new();
        let mut p = Paragraph::new();
        if let Some(s) = style {
            p = p.style(&self.styles[s].id);
        }
        let mark = self.g.r.one_in(6).then(|| {
            self.next_mark += 1;
            let id = self.next_mark;
            let name = if self.g.r.flip() { format!("_Toc{:08}", self.g.r.below(60)) } else { self.g.m() };
            (id, name)
        });
        let mark = mark.filter(|m| !self.names.contains(&m.1));
        if let Some((id, name)) = &mark {
            self.names.push(name.clone());
            p = p.add_bookmark_start(*id, name);
        }
        let n = 1 + self.g.r.us(4);
        for i in 0..n {
            let t = if i == 0 { marker.clone() } else { self.g.text() };
            // tabs and line breaks inside runs, tracked or not
            let rest = |g: &mut Gen, text: &mut String, run: Run| match g.r.below(12) {
                0 => {
                    text.push('\t');
                    run.add_tab()
                }
                1 => {
                    text.push('\t');
                    run.add_ptab(PositionalTab::new(PositionalTabAlignmentType::Right, PositionalTabRelativeTo::Margin, TabLeaderType::None))
                }
                2 => {
                    text.push('\n');
                    run.add_break(BreakType::TextWrapping)
                }
                3 => {
                    text.push('\n');
                    run.add_carriage_return()
                }
                _ => run,
            };
            match self.g.r.below(10) {
                0 if i > 0 => {
                    let t = format!("gone{t}");
                    p = p.add_delete(Delete::new().add_run(Run::new().add_delete_text(&t)));
                }
                1 => {
                    text += &t;
                    p = p.add_insert(Insert::new(rest(&mut self.g, &mut text, Run::new().add_text(&t))));
                }
                2 if i > 0 => {
                    let t = format!("away{t}");
                    p = p.add_move_from(MoveFrom::new().add_run(Run::new().add_text(&t)));
                }
                3 => {
                    text += &t;
                    p = p.add_move_to(MoveTo::new(rest(&mut self.g, &mut text, Run::new().add_text(&t))));
                }
                4 => {
                    text += &t;
                    text.push('\t');
                    p = p.add_run(Run::new().add_text(&t).add_tab());
                }
                5 => {
                    let t2 = self.g.text();
                    text += &t;
                    text += &t2;
                    p = p.add_run(Run::new().bold().add_text(&t).add_text(&t2));
                }
                _ => {
                    text += &t;
                    p = p.add_run(rest(&mut self.g, &mut text, Run::new().add_text(&t)));
                }
            }
        }
        if p.raw_text() != text {
            self.wrong = Some(format!("a paragraph with the text {text:?} says {:?}", p.raw_text()));
        }
        // texts have no line breaks
        let text = text.replace('\n', "");
        if let Some((id, _)) = &mark {
            p = p.add_bookmark_end(*id);
        }
        self.heads.push(Head { marker, style, text });
        p
    }

    fn table(&mut self, depth: usize) -> Table {
        let mut rows = vec![];
        for _ in 0..1 + self.g.r.us(2) {
            let mut cells = vec![];
            for _ in 0..1 + self.g.r.us(2) {
                let mut c = TableCell::new();
                for _ in 0..1 + self.g.r.us(2) {
                    if depth < 2 && self.g.r.one_in(5) {
                        c = c.add_table(self.table(depth + 1));
                    }
                    c = c.add_paragraph(self.para());
                }
                cells.push(c);
            }
            rows.push(TableRow::new(cells));
        }
        Table::new(rows)
    }

    fn sdt(&mut self) -> StructuredDataTag {
        let mut s = StructuredDataTag::new();
        for _ in 0..1 + self.g.r.us(2) {
            if self.g.r.one_in(4) {
                s = s.add_table(self.table(1));
            } else {
                s = s.add_paragraph(self.para());
            }
        }
        s
    }
}

fn auto(seed: u64, cx: &mut Ctx) -> Out {
    let mut m = Maker {
        g: Gen::new(seed, Cfg { hostile: seed % 2 == 0, ..Cfg::none() }),
        styles: vec![],
        heads: vec![],
        names: vec![],
        next_mark: if seed % 3 == 0 { 0 } else { (seed % 50) as usize },
        wrong: None,
    };
    let mut d = Docx::new();
    for _ in 0..m.g.r.us(7) {
        let id = m.g.m();
        let lv = 1 + m.g.r.us(9);
        let (name, heading) = match m.g.r.below(6) {
            0 => (format!("heading {lv}"), Some(lv)),
            1 => (format!("HEADING {lv}"), Some(lv)),
            2 | 3 => (format!("Heading {lv}"), Some(lv)),
            4 => ("Heading".to_string(), None),
            _ => (format!("Own {id}"), None),
        };
        d = d.add_style(Style::new(&id, StyleType::Paragraph).name(name));
        m.styles.push(Sty { id, heading });
    }
    // the options
    let (mut instr, mut text) = m.g.instr_toc();
    instr.styles_with_levels.clear();
    if let Some(i) = text.find(" \\t \"") {
        let end = i + 5 + text[i + 5..].find('"').unwrap_or(0) + 1;
        text.replace_range(i..end, "");
    }
    let range = instr.heading_styles_range.unwrap_or((0, 9));
    let mut mapped: BTreeMap<String, usize> = BTreeMap::new();
    if m.g.r.flip() {
        let mut list = vec![];
        for s in &m.styles {
            if m.g.r.flip() {
                // a level the range leaves out is not looked at
                let l = range.0.max(1) + m.g.r.us(range.1.min(9).max(range.0.max(1)) - range.0.max(1) + 1);
                instr.styles_with_levels.push(StyleWithLevel::new(&s.id, l));
                list.push(format!("{},{l}", s.id));
                mapped.insert(s.id.clone(), l);
            }
        }
        if !list.is_empty() {
            let t = format!(" \\t \"{}\"", list.join(","));
            let at = [" \\h", " \\u", " \\w", " \\x", " \\z"].iter().filter_map(|k| text.rfind(k)).filter(|i| {
                // only switches after the last argument
                !text[*i..].contains('"')
            }).min().unwrap_or(text.len());
            text.insert_str(at, &t);
        }
    }
    let none = instr.heading_styles_range.is_none() && !mapped.is_empty();
    let mut toc = TableOfContents::new().auto();
    toc.instr = instr.clone();
    let without = m.g.r.one_in(3);
    if without {
        toc = toc.without_sdt();
    }
    let dirty = m.g.r.flip();
    if dirty {
        toc = toc.dirty();
    }
    let before = m.g.m();
    let after = m.g.m();
    toc = toc
        .add_before_paragraph(Paragraph::new().add_run(Run::new().add_text(&before)))
        .add_after_paragraph(Paragraph::new().add_run(Run::new().add_text(&after)));
    let page = m.g.r.one_in(4).then(|| "7".to_string());
    toc.page_ref_placeholder = page.clone();
    // the document
    let n = 1 + m.g.r.us(10);
    let at = m.g.r.us(n + 1);
    for i in 0..=n {
        if i == at {
            d = d.add_table_of_contents(toc.clone());
        }
        match m.g.r.below(8) {
            0 => d = d.add_table(m.table(0)),
            1 => d = d.add_structured_data_tag(m.sdt()),
            2 => {
                let mut s = Section::new();
                for _ in 0..1 + m.g.r.us(3) {
                    match m.g.r.below(4) {
                        0 => s = s.add_table(m.table(0)),
                        _ => s = s.add_paragraph(m.para()),
                    }
                }
                d = d.add_section(s);
            }
            _ => d = d.add_paragraph(m.para()),
        }
    }
    // not part of the body
    let h = m.heads.len();
    d = d.header(Header::new().add_paragraph(m.para()));
    d = d.footer(Footer::new().add_paragraph(m.para()));
    m.heads.truncate(h);
    if let Some(e) = m.wrong {
        return Err(e);
    }

    let want: Vec<(&Head, usize)> = m
        .heads
        .iter()
        .filter_map(|h| {
            let s = &m.styles[h.style?];
            let inside = |l: usize| range.0 <= l && l <= range.1;
            let l = s.heading.filter(|l| inside(*l)).or(mapped.get(&s.id).copied().filter(|l| inside(*l)))?;
            Some((h, l))
        })
        .collect();
    let want = if none { vec![] } else { want };
    let p = cmp::open(&pack(d, m.g.r.flip())?)?;
    let x = p.xml(&p.main_part()?)?;
    let body = x.find("w:body").ok_or("no body")?;
    crate::saves::census(&p, cx)?;
    // where it is
    let mut all = vec![];
    let mut field = vec![];
    flatten(body, &mut all);
    let pos = |k: &str| all.iter().position(|p| texts(p) == k);
    let (Some(b), Some(a)) = (pos(&before), pos(&after).or_else(|| all.iter().position(|p| texts(p) == after))) else {
        return Err("the content before or after the table of contents is gone".into());
    };
    if b > a {
        return Err("content before and after the table of contents changed places".into());
    }
    for p in &all[b + 1..=a] {
        field.push(*p);
    }
    balanced(&field)?;
    let got_instr = instruction(&field);
    if got_instr.as_deref() != Some(text.as_str()) {
        return Err(format!("the instruction should be {text:?}, is {got_instr:?}"));
    }
    // the entries
    let entries: Vec<&El> = field
        .iter()
        .copied()
        .filter(|p| {
            let mut has = false;
            p.walk(|e| has |= e.name == "w:instrText" && e.text().starts_with("PAGEREF"));
            has
        })
        .collect();
    if entries.len() != want.len() {
        return Err(format!(
            "{} headings are selected ({:?}), {} entries are written",
            want.len(),
            want.iter().map(|w| &w.0.marker).collect::<Vec<_>>(),
            entries.len()
        ));
    }
    cx.obs.add("automatic entries", entries.len() as u64);
    for (e, (h, l)) in entries.iter().zip(&want) {
        let style = e.find("w:pPr").and_then(|p| p.find("w:pStyle")).and_then(|s| s.attr("w:val")).unwrap_or("");
        if style != format!("ToC{l}") {
            return Err(format!("the entry for {} should be of level {l}, has style {style:?}", h.marker));
        }
        let page_text = page.clone().unwrap_or("1".into());
        let t = texts(e);
        if t != format!("{}{page_text}", h.text) {
            return Err(format!("the entry for {} should say {:?}, says {:?}", h.marker, h.text, t));
        }
        let mut key = String::new();
        let mut anchor = None;
        e.walk(|x| {
            if x.name == "w:instrText" && x.text().starts_with("PAGEREF") {
                key = x.text().split(' ').nth(1).unwrap_or("").to_string();
            }
            if x.name == "w:hyperlink" {
                anchor = x.attr("w:anchor").map(str::to_string);
            }
        });
        if instr.hyperlink && anchor.as_deref() != Some(key.as_str()) {
            return Err(format!("the entry for {} links to {anchor:?}, its page is that of {key:?}", h.marker));
        }
        if !instr.hyperlink && anchor.is_some() {
            return Err(format!("the entry for {} is a link", h.marker));
        }
        // the bookmark is around the heading
        let target: Vec<&&El> = all
            .iter()
            .filter(|p| {
                let mut has = false;
                p.walk(|e| has |= e.name == "w:bookmarkStart" && e.attr("w:name") == Some(&key));
                has
            })
            .collect();
        if target.len() != 1 {
            return Err(format!("{} paragraphs are marked {key}", target.len()));
        }
        if !target[0].flat().contains(&h.marker) {
            return Err(format!("the entry for {} leads to another paragraph", h.marker));
        }
        let mut start = None;
        let mut seen = false;
        let mut inside = false;
        let mut closed = false;
        for k in target[0].els() {
            if k.name == "w:bookmarkStart" && k.attr("w:name") == Some(&key) {
                start = k.attr("w:id");
                inside = true;
            } else if k.name == "w:bookmarkEnd" && start.is_some() && k.attr("w:id") == start {
                inside = false;
                closed = true;
            } else if k.flat().contains(&h.marker) {
                seen |= inside;
            }
        }
        if !(seen && closed) {
            return Err(format!("the bookmark {key} does not enclose the heading {}", h.marker));
        }
    }
    cx.obs.one("automatic tables of contents");
    if !want.is_empty() {
        cx.obs.hit(mix(hash(text.as_bytes()) ^ hash(x.flat().as_bytes())));
        cx.obs.sample(|| json!({"case": seed.to_string(), "instruction": text, "entries": want.iter().map(|w| format!("{} {}", w.1, w.0.text)).collect::<Vec<_>>()}));
    }
    Ok(())
}

/// The paragraphs, in order.
fn flatten<'a>(e: &'a El, out: &mut Vec<&'a El>) {
    for k in e.els() {
        if k.name == "w:p" {
            out.push(k);
        } else {
            flatten(k, out);
        }
    }
}

fn texts(e: &El) -> String {
    let mut s = String::new();
    e.walk(|x| {
        if x.name == "w:t" {
            s += &x.text();
        }
    });
    s
}

/// Fields open and close in turn.
fn balanced(ps: &[&El]) -> Out {
    let mut depth = 0i64;
    let mut bad = false;
    for p in ps {
        p.walk(|e| {
            if e.name == "w:fldChar" {
                match e.attr("w:fldCharType") {
                    Some("begin") => depth += 1,
                    Some("end") => depth -= 1,
                    _ => {}
                }
                bad |= depth < 0;
            }
        });
    }
    if bad || depth != 0 {
        return Err(format!("the field of the table of contents is not balanced ({depth} open)"));
    }
    Ok(())
}

fn instruction(ps: &[&El]) -> Option<String> {
    let mut s = None;
    for p in ps {
        p.walk(|e| {
            if (e.name == "w:instrText" || e.name == "w:delInstrText") && s.is_none() {
                s = Some(e.text());
            }
        });
    }
    s
}

/// What is parsed from an instruction is written again.
fn parsed(seed: u64, cx: &mut Ctx) -> Out {
    let mut g = Gen::new(seed, Cfg { hostile: false, ..Cfg::none() });
    let (mut i, _) = g.instr_toc();
    // arguments are told apart by quotes and commas only
    for s in [&mut i.caption_label, &mut i.caption_label_including_numbers, &mut i.entry_bookmark_name] {
        if let Some(t) = s {
            *t = format!("{t} of two words");
        }
    }
    if let Some(Some(t)) = &mut i.tc_field_identifier {
        // none and an empty one are the same
        if t.is_empty() {
            *t = "C".into();
        }
    }
    for s in i.styles_with_levels.iter_mut() {
        if g.r.flip() {
            s.0 .0 = format!("My {}", s.0 .0);
        }
    }
    let save = |t: TableOfContents| -> Result<Option<String>, String> {
        let p = cmp::open(&pack(Docx::new().add_table_of_contents(t), false)?)?;
        let x = p.xml(&p.main_part()?)?;
        let mut all = vec![];
        flatten(&x, &mut all);
        Ok(instruction(&all))
    };
    let mut t = TableOfContents::new();
    t.instr = i;
    let text = save(t)?.ok_or("no instruction")?;
    // the same switches in another order and spacing
    let mut given = text.clone();
    if g.r.flip() {
        given = given.replace(" \\", if g.r.flip() { "  \\" } else { " \\" });
    }
    if g.r.one_in(4) {
        given = format!(" {given} ");
    }
    let again = save(TableOfContents::with_instr_text(&given))?.ok_or("no instruction")?;
    cx.obs.one("instructions given as text");
    if again != text {
        return Err(format!("the instruction {given:?} is written as {again:?}"));
    }
    cx.obs.hit(hash(text.as_bytes()));
    Ok(())
}

fn c15(seed: u64, cx: &mut Ctx) -> Out {
    match seed % 8 {
        0..=3 => auto(seed, cx),
        4 => parsed(seed, cx),
        _ => {
            let c = Cfg { toc: 30, tables: 6, pprops: 4, tracked: 6, ..Cfg::none() };
            let mut c = size(c, seed);
            c.readable = seed % 16 > 8;
            let b = crate::checks::build(seed, c)?;
            let v = view::view(&b.pkg, PLAIN)?;
            cmp::compare(&b.want, &v, &[Side::Body], false).map_err(|e| format!("saved package: {e}"))?;
            if b.g.c.readable {
                let d = read_docx(&b.bytes).map_err(|e| format!("a saved document cannot be read: {e}"))?;
                let p = cmp::open(&pack(d, true)?)?;
                let v = view::view(&p, PLAIN)?;
                cmp::compare(&cmp::as_read(&b.want), &v, &[Side::Body], true)
                    .map_err(|e| format!("read back and saved again: {e}"))?;
                cx.obs.one("documents read back");
            }
            cx.obs.add("tables of contents with given entries", b.g.e.counts.tocs);
            if b.g.e.counts.tocs > 0 {
                cx.obs.hit(hash(b.want.body.flat().as_bytes()));
            }
            Ok(())
        }
    }
}

pub const ALL: &[Check] = &[Check {
    id: "C15",
    rule: "a document with at least one table of contents whose field, instruction and entries were compared, by its body",
    assumptions: &["heading text is that of runs, tracked insertions and text moved there", "style mappings name levels inside the range of levels"],
    level: "exploration",
    cases: 16000,
    deep: 7,
    threads: 8,
    floor: 300,
    case: c15,
    probes: &[],
}];
