//! What building, saving and reading cost when a document grows, in instructions and memory.

use crate::alloc;
use crate::check::*;
use crate::checks::pack;
use crate::pkg;
use crate::reads;
use crate::util::{hash, Rng};
use docx_rs::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::Command;

fn text(i: usize) -> String {
    format!("text number {i} & <more>")
}

fn run(i: usize) -> Run {
    Run::new().add_text(text(i))
}

fn para(i: usize) -> Paragraph {
    Paragraph::new().add_run(run(i))
}

fn png(i: usize) -> Vec<u8> {
    let mut b = vec![];
    let im = image::RgbImage::from_fn(2, 2, |x, y| image::Rgb([i as u8, (i >> 8) as u8, (x * 2 + y) as u8]));
    im.write_to(&mut std::io::Cursor::new(&mut b), image::ImageFormat::Png).expect("a picture");
    b
}

/// Noise does not get smaller when it is compressed.
fn noise(n: usize) -> Vec<u8> {
    let mut r = Rng::new(23);
    (0..n).map(|_| r.next() as u8).collect()
}

/// A kind of growth: adds `n` of something to a document.
type Grow = fn(Docx, usize) -> Docx;

fn each(d: Docx, n: usize, f: impl Fn(Docx, usize) -> Docx) -> Docx {
    (0..n).fold(d, f)
}

fn table(rows: Vec<TableRow>) -> Table {
    Table::new(rows)
}

fn cell(i: usize) -> TableCell {
    TableCell::new().add_paragraph(para(i))
}

const KINDS: &[(&str, usize, Grow)] = &[
    ("paragraphs", 1000, |d, n| each(d, n, |d, i| d.add_paragraph(para(i)))),
    ("runs", 1000, |d, n| d.add_paragraph((0..n).fold(Paragraph::new(), |p, i| p.add_run(run(i).bold().size(20))))),
    ("long-text", 1000, |d, n| d.add_paragraph(Paragraph::new().add_run(Run::new().add_text("a long text, \"&\" <all> of it ".repeat(n * 3))))),
    ("texts-in-run", 1500, |d, n| {
        let r = (0..n).fold(Run::new(), |r, i| r.add_text(text(i)).add_tab().add_break(BreakType::TextWrapping));
        d.add_paragraph(Paragraph::new().add_run(r))
    }),
    ("rows", 400, |d, n| d.add_table(table((0..n).map(|i| TableRow::new(vec![cell(i), cell(i)])).collect()))),
    ("cells", 800, |d, n| d.add_table(table(vec![TableRow::new((0..n).map(cell).collect())]).set_grid(vec![100; n]))),
    ("tables", 400, |d, n| each(d, n, |d, i| d.add_table(table(vec![TableRow::new(vec![cell(i)])])))),
    ("paragraphs-in-cell", 1000, |d, n| {
        let c = (0..n).fold(TableCell::new(), |c, i| c.add_paragraph(para(i)));
        d.add_table(table(vec![TableRow::new(vec![c])]))
    }),
    ("comments", 400, |d, n| {
        each(d, n, |d, i| {
            let c = Comment::new(i + 1).author("me").date("2024-01-01T00:00:00Z").add_paragraph(para(i));
            d.add_paragraph(Paragraph::new().add_comment_start(c).add_run(run(i)).add_comment_end(i + 1))
        })
    }),
    ("replies", 300, |d, n| {
        let first = Comment::new(1_000_000).author("me").date("2024-01-01T00:00:00Z").add_paragraph(para(0));
        let mut p = Paragraph::new().add_comment_start(first);
        for i in 0..n {
            p = p.add_comment_start(
                Comment::new(1_000_001 + i).author("you").date("2024-01-01T00:00:00Z").parent_comment_id(1_000_000).add_paragraph(para(i)),
            );
        }
        p = p.add_run(run(1));
        for i in 0..n {
            p = p.add_comment_end(1_000_001 + i);
        }
        d.add_paragraph(p.add_comment_end(1_000_000))
    }),
    ("footnotes", 400, |d, n| {
        each(d, n, |d, i| d.add_paragraph(Paragraph::new().add_run(run(i).add_footnote_reference(Footnote::new().add_content(para(i))))))
    }),
    ("links", 500, |d, n| {
        each(d, n, |d, i| {
            d.add_paragraph(
                Paragraph::new().add_hyperlink(Hyperlink::new(format!("https://example.com/{i}?a=1&b=2"), HyperlinkType::External).add_run(run(i))),
            )
        })
    }),
    ("links-in-paragraph", 500, |d, n| {
        d.add_paragraph((0..n).fold(Paragraph::new(), |p, i| {
            p.add_hyperlink(Hyperlink::new("https://example.com/same", HyperlinkType::External).add_run(run(i)))
        }))
    }),
    ("links-of-one-name", 500, |d, n| {
        each(d, n, |d, i| {
            let mut l = Hyperlink::new("x", HyperlinkType::External).add_run(run(i));
            l.link = HyperlinkData::External { rid: "same".into(), path: format!("https://example.com/{i}") };
            d.add_paragraph(Paragraph::new().add_hyperlink(l))
        })
    }),
    ("same-ids", 1000, |d, n| each(d, n, |d, i| d.add_paragraph(para(i).id("0000ABCD")))),
    ("comments-in-paragraph", 300, |d, n| {
        let p = (0..n).fold(Paragraph::new(), |p, i| {
            let c = Comment::new(i + 500_000).author("me").date("2024-01-01T00:00:00Z").add_paragraph(para(i)).add_paragraph(para(i));
            p.add_comment_start(c).add_run(run(i)).add_comment_end(i + 500_000)
        });
        d.add_paragraph(p)
    }),
    ("marked-headings", 250, |d, n| {
        let d = d.add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto());
        each(d, n, |d, i| {
            d.add_paragraph(
                Paragraph::new().style("Heading1").add_bookmark_start(i + 800_000, format!("_Toc{i:08}")).add_run(run(i)).add_bookmark_end(i + 800_000),
            )
        })
    }),
    ("mapped-styles", 200, |d, n| {
        let t = (0..n).fold(TableOfContents::new().heading_styles_range(1, 3).auto(), |t, i| t.add_style_with_level(StyleWithLevel::new(format!("M{i}"), 1 + i % 3)));
        d.add_table_of_contents(t)
    }),
    ("instances", 300, |d, n| {
        let l = Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"));
        let d = d.add_abstract_numbering(AbstractNumbering::new(7).add_level(l));
        each(d, n, |d, i| d.add_numbering(Numbering::new(i + 1000, 7).add_override(LevelOverride::new(0).start(i))))
    }),
    ("anchors", 600, |d, n| {
        each(d, n, |d, i| {
            d.add_paragraph(
                Paragraph::new()
                    .add_bookmark_start(i + 1, format!("mark{i}"))
                    .add_run(run(i))
                    .add_bookmark_end(i + 1)
                    .add_hyperlink(Hyperlink::new(format!("mark{i}"), HyperlinkType::Anchor).add_run(run(i))),
            )
        })
    }),
    ("pictures", 60, |d, n| each(d, n, |d, i| d.add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new(&png(i))))))),
    ("same-picture", 200, |d, n| {
        let b = png(7);
        each(d, n, |d, _| d.add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(b.clone(), 2, 2)))))
    }),
    ("pictures-of-one-name", 400, |d, n| {
        each(d, n, |d, i| {
            let b = (i as u32).to_be_bytes().to_vec();
            d.add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(b, 2, 2).id("same"))))
        })
    }),
    ("pictures-in-header", 300, |d, n| {
        let h = (0..n).fold(Header::new(), |h, i| {
            let b = (i as u32).to_be_bytes().to_vec();
            h.add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(b, 2, 2))))
        });
        d.header(h)
    }),
    ("picture-bytes", 300, |d, n| {
        d.add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(noise(n * 1024), 10, 10))))
    }),
    ("header", 600, |d, n| {
        let h = (0..n).fold(Header::new(), |h, i| h.add_paragraph(para(i)));
        let f = (0..n).fold(Footer::new(), |h, i| h.add_paragraph(para(i)));
        d.header(h).footer(f)
    }),
    ("header-links", 300, |d, n| {
        let h = (0..n).fold(Header::new(), |h, i| {
            h.add_paragraph(Paragraph::new().add_hyperlink(Hyperlink::new(format!("https://example.com/{i}"), HyperlinkType::External).add_run(run(i))))
        });
        d.first_header(h)
    }),
    ("sections", 300, |d, n| each(d, n, |d, i| d.add_section(Section::new().add_paragraph(para(i)).page_size(PageSize::new().width(5000).height(6000))))),
    ("sections-with-headers", 60, |d, n| {
        each(d, n, |d, i| d.add_section(Section::new().add_paragraph(para(i)).header(Header::new().add_paragraph(para(i)))))
    }),
    ("styles", 400, |d, n| {
        each(d, n, |d, i| d.add_style(Style::new(format!("S{i}"), StyleType::Paragraph).name(format!("Style {i}")).based_on("Normal").bold().size(30)))
    }),
    ("styled-paragraphs", 400, |d, n| {
        each(d, n, |d, i| {
            d.add_style(Style::new(format!("P{i}"), StyleType::Paragraph).name(format!("Para style {i}")).bold())
                .add_paragraph(para(i).style(&format!("P{i}")).indent(Some(100), None, None, None))
        })
    }),
    ("numberings", 120, |d, n| {
        each(d, n, |d, i| {
            let l = Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"));
            d.add_abstract_numbering(AbstractNumbering::new(i + 10).add_level(l))
                .add_numbering(Numbering::new(i + 10, i + 10))
                .add_paragraph(para(i).numbering(NumberingId::new(i + 10), IndentLevel::new(0)))
        })
    }),
    ("numbered-paragraphs", 800, |d, n| {
        let l = Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1."), LevelJc::new("left"));
        let d = d.add_abstract_numbering(AbstractNumbering::new(9).add_level(l)).add_numbering(Numbering::new(9, 9));
        each(d, n, |d, i| d.add_paragraph(para(i).numbering(NumberingId::new(9), IndentLevel::new(0))))
    }),
    ("insertions", 500, |d, n| {
        each(d, n, |d, i| d.add_paragraph(Paragraph::new().add_insert(Insert::new(run(i)).author("me").date("2024-01-01T00:00:00Z"))))
    }),
    ("changes-in-paragraph", 500, |d, n| {
        d.add_paragraph((0..n).fold(Paragraph::new(), |p, i| {
            p.add_insert(Insert::new(run(i)).author("me").date("2024-01-01T00:00:00Z")).add_delete(
                Delete::new().add_run(Run::new().add_delete_text(text(i))).author("me").date("2024-01-01T00:00:00Z"),
            )
        }))
    }),
    ("headings", 250, |d, n| {
        let d = d
            .add_style(Style::new("Heading1", StyleType::Paragraph).name("Heading 1"))
            .add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto());
        each(d, n, |d, i| d.add_paragraph(para(i).style("Heading1")))
    }),
    ("toc-items", 250, |d, n| {
        d.add_table_of_contents((0..n).fold(TableOfContents::new().heading_styles_range(1, 3).hyperlink(), |t, i| {
            t.add_item(TableOfContentsItem::new().text(text(i)).toc_key(format!("_Toc{i:08}")).level(1).page_ref("3"))
        }))
    }),
    ("custom-properties", 800, |d, n| each(d, n, |d, i| d.custom_property(format!("name {i}"), text(i)))),
    ("doc-vars", 800, |d, n| each(d, n, |d, i| d.add_doc_var(&format!("name {i}"), &text(i)))),
    ("custom-items", 60, |d, n| {
        each(d, n, |d, i| d.add_custom_item(&format!("06AC5857-5C65-A94A-BCEC-{i:012}"), &format!("<root xmlns=\"urn:x\"><a>{i}</a></root>")))
    }),
    ("custom-item-elements", 500, |d, n| {
        let s: String = (0..n).map(|i| format!("<b k=\"{i}\"><c>{i}</c></b>")).collect();
        d.add_custom_item("06AC5857-5C65-A94A-BCEC-D25422BE9BC7", &format!("<root xmlns=\"urn:x\">{s}</root>"))
    }),
    ("controls", 500, |d, n| {
        each(d, n, |d, i| d.add_structured_data_tag(StructuredDataTag::new().alias(format!("alias {i}")).add_paragraph(para(i))))
    }),
    ("paragraphs-in-control", 1000, |d, n| {
        d.add_structured_data_tag((0..n).fold(StructuredDataTag::new(), |t, i| t.add_paragraph(para(i))))
    }),
    ("chosen-ids", 1000, |d, n| each(d, n, |d, i| d.add_paragraph(para(i).id(format!("{:08X}", i + 0x1000))))),
    ("tabs", 1000, |d, n| d.add_paragraph((0..n).fold(para(1), |p, i| p.add_tab(Tab::new().pos(i + 1).val(TabValueType::Left))))),
    ("web-extension", 400, |d, n| {
        let w = (0..n).fold(WebExtension::new("id", "ref", "1.0.0.0", "store", "type"), |w, i| w.property(format!("name {i}"), "\"value\""));
        d.taskpanes().web_extension(w)
    }),
];

/// What only files can have.
const FOREIGN: &[(&str, usize, fn(usize) -> String)] = &[
    ("unknown-elements", 3000, |n| (0..n).map(|i| format!("<w:unknown w:a=\"{i}\"><w:more/></w:unknown>")).collect()),
    ("comments-in-text", 3000, |n| format!("<w:p><w:r><w:t>{}</w:t></w:r></w:p>", "piece<!-- remark -->".repeat(n))),
    ("cdata-in-text", 3000, |n| format!("<w:p><w:r><w:t>{}</w:t></w:r></w:p>", "<![CDATA[piece]]>".repeat(n))),
    ("entities", 5000, |n| format!("<w:p><w:r><w:t>{}</w:t></w:r></w:p>", "&amp;&#x41;&lt;b".repeat(n))),
    ("white-space", 3000, |n| format!("<w:p>{}<w:r><w:t>x</w:t></w:r></w:p>", "          \n".repeat(n))),
    ("attributes", 60, |n| {
        let a: String = (0..n).map(|i| format!(" w:a{i}=\"{i}\"")).collect();
        format!("<w:p{a}><w:r><w:t>x</w:t></w:r></w:p>").repeat(3)
    }),
    ("declarations", 2000, |n| (0..n).map(|i| format!("<w:p><x{i}:y xmlns:x{i}=\"urn:{i}\"/></w:p>")).collect()),
    ("attribute-length", 3000, |n| format!("<w:p><w:r><w:rPr><w:rStyle w:val=\"{}\"/></w:rPr><w:t>x</w:t></w:r></w:p>", "long &amp; longer ".repeat(n))),
    ("empty-runs", 3000, |n| format!("<w:p>{}</w:p>", "<w:r/>".repeat(n))),
    ("proofing-marks", 3000, |n| format!("<w:p>{}</w:p>", "<w:proofErr w:type=\"spellStart\"/><w:r><w:t>a</w:t></w:r>".repeat(n))),
    ("alternatives", 500, |n| {
        format!("<w:p>{}</w:p>", "<w:r><mc:AlternateContent><mc:Choice Requires=\"wps\"/><mc:Fallback><w:pict/></mc:Fallback></mc:AlternateContent></w:r>".repeat(n))
    }),
];

/// `kind:weight+kind:weight`, each weight in percent of the usual number
fn parts(spec: &str) -> Vec<(String, usize)> {
    spec.split('+')
        .filter_map(|s| {
            let (k, w) = s.split_once(':').unwrap_or((s, "100"));
            Some((k.to_string(), w.parse().ok()?))
        })
        .collect()
}

fn built(spec: &str, times: usize) -> Docx {
    let mut d = Docx::new();
    for (k, w) in parts(spec) {
        if let Some((_, n, f)) = KINDS.iter().find(|x| x.0 == k) {
            d = f(d, n * w * times / 100);
        }
    }
    d
}

/// The same as a file, with what only files can have.
fn stored(spec: &str, times: usize) -> Result<pkg::Package, String> {
    let b = pack(built(spec, times), false)?;
    let mut p = pkg::load(&b)?;
    let mut more = String::new();
    for (k, w) in parts(spec) {
        if let Some((_, n, f)) = FOREIGN.iter().find(|x| x.0 == k) {
            more += &f(n * w * times / 100);
        }
    }
    if !more.is_empty() {
        let m = p.main_part()?;
        let s = String::from_utf8(p.parts[&m].clone()).map_err(|e| e.to_string())?;
        let i = s.find("<w:sectPr").ok_or("no section properties")?;
        let s = format!("{}{more}{}", &s[..i], &s[i..]);
        let s = if s.contains("xmlns:mc=") { s } else { s.replacen("<w:document ", "<w:document xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" ", 1) };
        p.parts.insert(m, s.into_bytes());
    }
    Ok(p)
}

const BUILT: &[&str] = &["save", "render", "json"];
const READ: &[&str] = &["read", "read-flat", "read-save"];

/// The child: does one thing and prints what it allocated.
pub fn serve(a: &[String]) {
    let arg = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let times: usize = arg(2).parse().expect("a size");
    let (op, spec) = (arg(0).to_string(), arg(1).to_string());
    let file = arg(3).to_string();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let body = if file.is_empty() { vec![] } else { std::fs::read(&file).expect("the file") };
        alloc::reset(None);
        match op.as_str() {
            "nothing" => {}
            "save" => drop(pack(built(&spec, times), false).expect("saved")),
            "render" => drop(pack(built(&spec, times), true).expect("saved")),
            "json" => drop(built(&spec, times).json()),
            "read" => drop(read_docx(&body).expect("read")),
            "read-flat" => drop(read_xml(std::str::from_utf8(&body).expect("text")).expect("read")),
            "read-save" => drop(pack(read_docx(&body).expect("read"), false).expect("saved")),
            _ => panic!("no such thing"),
        }
        println!("COST {} {} {}", alloc::calls(), alloc::total(), alloc::peak());
    });
    if h.expect("a thread").join().is_err() {
        std::process::exit(3);
    }
}

#[derive(Clone, Copy, Default)]
struct Cost {
    /// instructions; 0 where they cannot be counted
    work: u64,
    calls: u64,
    total: u64,
    peak: u64,
}

/// The program that is measured: without debug information, which valgrind would read every time.
fn program(scratch: &Path) -> &'static (bool, PathBuf) {
    use std::sync::OnceLock;
    static IT: OnceLock<(bool, PathBuf)> = OnceLock::new();
    IT.get_or_init(|| {
        let exe = std::env::current_exe().expect("this program");
        let small = scratch.join("measured");
        let made = Command::new("strip").arg("-o").arg(&small).arg(&exe).status();
        let exe = if made.map(|s| s.success()).unwrap_or(false) { small } else { exe };
        let ok = Command::new("valgrind")
            .args(VALGRIND)
            .arg(&exe)
            .args(["cost", "nothing", "", "0"])
            .output()
            .map(|o| o.status.success() && String::from_utf8_lossy(&o.stderr).contains("I refs:"))
            .unwrap_or(false);
        (ok, exe)
    })
}

const VALGRIND: &[&str] = &["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"];

/// What it costs when there is nothing.
fn least(op: &str, scratch: &Path) -> Result<Cost, String> {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static SEEN: Mutex<Option<HashMap<String, Cost>>> = Mutex::new(None);
    let mut g = SEEN.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(c) = m.get(op) {
        return Ok(*c);
    }
    let f = scratch.join(format!("cost-least-{op}"));
    if READ.contains(&op) {
        store(op, "", 0, &f)?;
    }
    let c = measure(op, "", 0, Some(&f), scratch)?;
    m.insert(op.into(), c);
    Ok(c)
}

fn store(op: &str, spec: &str, times: usize, f: &Path) -> Out {
    let p = stored(spec, times)?;
    let b = if op == "read-flat" { reads::flat(&p, &mut Rng::new(5)).into_bytes() } else { pkg::zip(&p, None) };
    std::fs::write(f, b).expect("room for a file");
    Ok(())
}

fn measure(op: &str, spec: &str, times: usize, file: Option<&Path>, scratch: &Path) -> Result<Cost, String> {
    let (valgrind, exe) = program(scratch);
    let mut c = if *valgrind {
        let mut c = Command::new("valgrind");
        c.args(VALGRIND).arg(exe);
        c
    } else {
        Command::new(exe)
    };
    c.args(["cost", op, spec, &times.to_string()]);
    if let (Some(f), true) = (file, READ.contains(&op)) {
        c.arg(f);
    }
    let o = c.output().expect("the measured program starts");
    let (so, se) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    if o.status.code() == Some(3) {
        return Err(format!("{op} of {spec} x{times} fails"));
    }
    let Some(l) = so.lines().find_map(|l| l.strip_prefix("COST ")) else {
        panic!("{op} of {spec} x{times} ended with {:?}: {}", o.status, crate::view::cut(&se));
    };
    let v: Vec<u64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
    let work = se
        .lines()
        .find(|l| l.contains("I refs:"))
        .and_then(|l| l.rsplit(' ').next().map(|x| x.replace(',', "")))
        .and_then(|x| x.parse().ok())
        .unwrap_or(0);
    Ok(Cost { work, calls: v[0], total: v[1], peak: v[2] })
}

const MORE: usize = 8;

/// So many times the document may cost as many times as much and a little more.
fn grows(ops: &[&str], spec: &str, cx: &mut Ctx) -> Out {
    let mut made: Vec<PathBuf> = vec![];
    let r = (|| {
        for op in ops {
            let mut cost = vec![least(op, &cx.scratch)?];
            for times in [1, MORE] {
                let file = if READ.contains(op) {
                    let f = cx.scratch.join(format!("cost-{:x}-{times}-{}", hash(spec.as_bytes()), *op == "read-flat"));
                    if !f.exists() {
                        store(op, spec, times, &f)?;
                        made.push(f.clone());
                    }
                    Some(f)
                } else {
                    None
                };
                cost.push(measure(op, spec, times, file.as_deref(), &cx.scratch)?);
                cx.obs.one("programs measured");
            }
            let get: [(&str, fn(&Cost) -> u64, f64, f64); 4] = [
                ("instructions", |c| c.work, 5e6, 1.2),
                ("allocations", |c| c.calls, 2000.0, 1.2),
                // what grows by doubling can be nearly half empty
                ("allocated bytes", |c| c.total, 8e6, 2.5),
                ("bytes at a time", |c| c.peak, 8e6, 2.5),
            ];
            for (what, f, least, bound) in get {
                let base = f(&cost[0]) as f64;
                let (one, many) = (f(&cost[1]) as f64 - base, f(&cost[2]) as f64 - base);
                if f(&cost[2]) == 0 || many < least {
                    continue;
                }
                let g = many / one.max(least / MORE as f64) / MORE as f64;
                cx.obs.one(&format!("growths of {what}"));
                cx.obs.max(&format!("growth of {what} in percent"), (g * MORE as f64 * 100.0) as u64);
                if std::env::var("MON_SHOW").is_ok() {
                    eprintln!("{op} {spec} {what}: {base} {one} {many} {g:.3}");
                }
                if g > bound {
                    return Err(format!("{op}: {MORE} times as many {spec} take {:.0} times the {what}", g * MORE as f64));
                }
            }
            cx.obs.hit(hash(format!("{op} {spec}").as_bytes()));
            cx.obs.sample(|| json!({"operation": op, "document": spec, "instructions at 0, 1, 8": cost.iter().map(|c| c.work).collect::<Vec<_>>(), "allocated bytes": cost.iter().map(|c| c.total).collect::<Vec<_>>()}));
        }
        Ok(())
    })();
    for f in made {
        let _ = std::fs::remove_file(f);
    }
    r
}

fn c23(seed: u64, cx: &mut Ctx) -> Out {
    let mut r = Rng::new(seed ^ 23);
    let mut names: Vec<&str> = KINDS.iter().map(|k| k.0).chain(FOREIGN.iter().map(|k| k.0)).collect();
    // one at a time is looked at by the fixed cases
    r.shuffle(&mut names);
    let n = 2 + r.us(3);
    let spec: Vec<String> = names[..n].iter().map(|k| format!("{k}:{}", 20 + r.us(60))).collect();
    let spec = spec.join("+");
    let op = if r.flip() { r.pick(BUILT) } else { r.pick(READ) };
    cx.obs.one(if program(&cx.scratch).0 { "cases with instructions counted" } else { "cases without instructions counted" });
    grows(&[op], &spec, cx)
}

macro_rules! kinds {
    ($($f:ident $k:literal $ops:expr;)*) => {
        $(fn $f(cx: &mut Ctx) -> Out {
            // the number of things at the smaller size, in percent
            let share = if cx.thorough { 200 } else { 60 };
            grows($ops, &format!("{}:{share}", $k), cx)
        })*
        const PROBES: &[(&str, fn(&mut Ctx) -> Out)] = &[$(($k, $f)),*];
    };
}

const BOTH: &[&str] = &["save", "render", "json", "read", "read-flat", "read-save"];

kinds! {
    grow_paragraphs "paragraphs" BOTH;
    grow_runs "runs" BOTH;
    grow_long_text "long-text" BOTH;
    grow_texts_in_run "texts-in-run" BOTH;
    grow_rows "rows" BOTH;
    grow_cells "cells" BOTH;
    grow_tables "tables" BOTH;
    grow_paragraphs_in_cell "paragraphs-in-cell" BOTH;
    grow_comments "comments" BOTH;
    grow_replies "replies" BOTH;
    grow_footnotes "footnotes" BOTH;
    grow_links "links" BOTH;
    grow_links_in_paragraph "links-in-paragraph" BOTH;
    grow_anchors "anchors" BOTH;
    grow_pictures "pictures" BOTH;
    grow_same_picture "same-picture" BOTH;
    grow_picture_bytes "picture-bytes" BOTH;
    grow_header "header" BOTH;
    grow_header_links "header-links" BOTH;
    grow_sections "sections" BOTH;
    grow_sections_with_headers "sections-with-headers" BOTH;
    grow_styles "styles" BOTH;
    grow_styled_paragraphs "styled-paragraphs" BOTH;
    grow_numberings "numberings" BOTH;
    grow_numbered_paragraphs "numbered-paragraphs" BOTH;
    grow_insertions "insertions" BOTH;
    grow_changes_in_paragraph "changes-in-paragraph" BOTH;
    grow_headings "headings" BOTH;
    grow_toc_items "toc-items" BOTH;
    grow_custom_properties "custom-properties" BOTH;
    grow_doc_vars "doc-vars" BOTH;
    grow_custom_items "custom-items" BOTH;
    grow_custom_item_elements "custom-item-elements" BOTH;
    grow_controls "controls" BOTH;
    grow_paragraphs_in_control "paragraphs-in-control" BOTH;
    grow_chosen_ids "chosen-ids" BOTH;
    grow_tabs "tabs" BOTH;
    grow_web_extension "web-extension" BOTH;
    grow_links_of_one_name "links-of-one-name" BOTH;
    grow_same_ids "same-ids" BOTH;
    grow_comments_in_paragraph "comments-in-paragraph" BOTH;
    grow_marked_headings "marked-headings" BOTH;
    grow_mapped_styles "mapped-styles" BOTH;
    grow_instances "instances" BOTH;
    grow_pictures_of_one_name "pictures-of-one-name" BOTH;
    grow_pictures_in_header "pictures-in-header" BOTH;
    grow_unknown_elements "unknown-elements" READ;
    grow_comments_in_text "comments-in-text" READ;
    grow_cdata_in_text "cdata-in-text" READ;
    grow_entities "entities" READ;
    grow_white_space "white-space" READ;
    grow_attributes "attributes" READ;
    grow_declarations "declarations" READ;
    grow_attribute_length "attribute-length" READ;
    grow_empty_runs "empty-runs" READ;
    grow_proofing_marks "proofing-marks" READ;
    grow_alternatives "alternatives" READ;
}

pub const ALL: &[Check] = &[Check {
    id: "C23",
    rule: "an operation on a kind of document at one and at eight times a size",
    assumptions: &["cost is counted in instructions (valgrind), allocations, allocated bytes and bytes at a time, less those of an empty document"],
    level: "exploration",
    cases: 24,
    deep: 60,
    threads: 8,
    floor: 100,
    case: c23,
    probes: PROBES,
}];
