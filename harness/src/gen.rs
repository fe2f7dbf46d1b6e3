//! Random documents, each made together with the XML its package has to stand for.
//!
//! What is expected is written down here from the meaning of the API calls, in the form the
//! `view` module brings packages into: relationships followed, header, footer and note text in place of
//! the reference, pictures as one element.

use crate::props::*;
use crate::util::Rng;
use crate::xml::El;
use docx_rs::*;

/// What a random document may contain; numbers are weights or percentages.
#[derive(Clone)]
pub struct Cfg {
    pub props: u64,
    pub pprops: u64,
    pub tables: u64,
    pub sdt: u64,
    pub links: u64,
    pub ext_links: bool,
    pub header_links: bool,
    pub bookmarks: u64,
    pub comments: u64,
    pub footnotes: u64,
    pub images: u64,
    pub tracked: u64,
    pub fields: u64,
    pub toc: u64,
    pub sections: u64,
    pub headers: u64,
    pub numbering: u64,
    pub styles: u64,
    pub settings: u64,
    pub custom: u64,
    pub para_ids: u64,
    pub frames: bool,
    pub stretch: bool,
    /// leave out what the reader is known not to keep
    pub readable: bool,
    pub max_blocks: usize,
    /// hostile strings in text and attributes
    pub hostile: bool,
}

impl Cfg {
    pub fn none() -> Cfg {
        Cfg {
            props: 0,
            pprops: 0,
            tables: 0,
            sdt: 0,
            links: 0,
            ext_links: true,
            header_links: true,
            bookmarks: 0,
            comments: 0,
            footnotes: 0,
            images: 0,
            tracked: 0,
            fields: 0,
            toc: 0,
            sections: 0,
            headers: 0,
            numbering: 0,
            styles: 0,
            settings: 0,
            custom: 0,
            para_ids: 0,
            frames: true,
            stretch: true,
            readable: false,
            max_blocks: 6,
            hostile: true,
        }
    }
    /// Everything at once.
    pub fn full() -> Cfg {
        Cfg {
            props: 8,
            pprops: 8,
            tables: 12,
            sdt: 8,
            links: 10,
            bookmarks: 10,
            comments: 10,
            footnotes: 8,
            images: 6,
            tracked: 12,
            fields: 8,
            toc: 3,
            sections: 8,
            headers: 40,
            numbering: 50,
            styles: 60,
            settings: 60,
            custom: 50,
            para_ids: 10,
            ..Cfg::none()
        }
    }
    /// Everything, less what is known not to survive being read.
    pub fn readable(mut self) -> Cfg {
        self.readable = true;
        self.footnotes = 0;
        self.stretch = false;
        self.header_links = false;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Body,
    Cell,
    Header,
    Comment,
    Note,
    Sdt,
    Toc,
    Section,
}

impl Place {
    fn main(self) -> bool {
        !matches!(self, Place::Header | Place::Comment | Place::Note)
    }
}

pub enum Block {
    P(Paragraph),
    T(Table),
    S(StructuredDataTag),
    Toc(TableOfContents),
    BmS(usize, String),
    BmE(usize),
    CmS(Comment),
    CmE(usize),
    Sec(Section),
}

#[derive(Default)]
pub struct Expect {
    pub body: Vec<El>,
    pub comments: Vec<El>,
    pub styles: Vec<El>,
    pub defaults: Vec<El>,
    pub abstracts: Vec<El>,
    pub nums: Vec<El>,
    pub settings: Vec<El>,
    pub core: Vec<El>,
    pub props: Vec<(String, String)>,
    pub items: Vec<(String, El)>,
    pub webext: Vec<El>,
    pub panes: bool,
    pub counts: Counts,
}

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub paras: u64,
    pub runs: u64,
    pub texts: u64,
    pub props: u64,
    pub tables: u64,
    pub cells: u64,
    pub links: u64,
    pub marks: u64,
    pub comments: u64,
    pub notes: u64,
    pub images: u64,
    pub tracked: u64,
    pub fields: u64,
    pub sdts: u64,
    pub sections: u64,
    pub headers: u64,
    pub styles: u64,
    pub levels: u64,
    pub settings: u64,
    pub items: u64,
    pub tocs: u64,
}

pub struct Gen {
    pub r: Rng,
    pub c: Cfg,
    n: usize,
    depth: usize,
    pub styles: Vec<String>,
    pub nums: Vec<usize>,
    next_comment: usize,
    open_comments: Vec<usize>,
    all_comments: Vec<usize>,
    next_mark: usize,
    open_marks: Vec<usize>,
    pub mark_names: Vec<String>,
    pub images: Vec<Vec<u8>>,
    para_ids: std::collections::BTreeSet<String>,
    even: bool,
    pub same: Option<Paragraph>,
    pub e: Expect,
}

/// A small PNG whose pixels depend on `n`.
pub fn png(n: u64, w: u32, h: u32) -> Vec<u8> {
    use std::io::Write;
    let mut raw = vec![];
    let mut r = Rng::new(n);
    for _ in 0..h {
        raw.push(0);
        for _ in 0..w {
            let x = r.next();
            raw.extend_from_slice(&[x as u8, (x >> 8) as u8, (x >> 16) as u8]);
        }
    }
    let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    z.write_all(&raw).unwrap();
    let z = z.finish().unwrap();
    let mut o = vec![137, 80, 78, 71, 13, 10, 26, 10];
    let mut chunk = |t: &[u8], d: &[u8]| {
        o.extend_from_slice(&(d.len() as u32).to_be_bytes());
        let mut b = t.to_vec();
        b.extend_from_slice(d);
        o.extend_from_slice(&b);
        o.extend_from_slice(&crc32fast::hash(&b).to_be_bytes());
    };
    let mut hd = vec![];
    hd.extend_from_slice(&w.to_be_bytes());
    hd.extend_from_slice(&h.to_be_bytes());
    hd.extend_from_slice(&[8, 2, 0, 0, 0]);
    chunk(b"IHDR", &hd);
    chunk(b"IDAT", &z);
    chunk(b"IEND", &[]);
    o
}

/// A 24 bit BMP with pixels depending on `n`.
pub fn bmp(n: u64, w: u32, h: u32) -> Vec<u8> {
    let mut r = Rng::new(n);
    let row = ((w * 3 + 3) / 4) * 4;
    let size = 54 + row * h;
    let mut o = b"BM".to_vec();
    o.extend_from_slice(&size.to_le_bytes());
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&54u32.to_le_bytes());
    o.extend_from_slice(&40u32.to_le_bytes());
    o.extend_from_slice(&w.to_le_bytes());
    o.extend_from_slice(&h.to_le_bytes());
    o.extend_from_slice(&[1, 0, 24, 0]);
    o.extend_from_slice(&[0; 24]);
    for _ in 0..h {
        for i in 0..row {
            o.push(if i < w * 3 { r.next() as u8 } else { 0 });
        }
    }
    o
}

/// What a picture shows.
pub fn image_sig(b: &[u8]) -> String {
    format!("raw:{}:{:016x}", b.len(), crate::util::hash(b))
}

/// Other bytes of the same length and CRC-32.
fn twin(b: &[u8], at: usize) -> Vec<u8> {
    // the polynomial of the checksum, first bit first
    let mut o = b.to_vec();
    let g = (1u64 << 32) | 0x04C1_1DB7;
    for i in 0..33 {
        if g >> (32 - i) & 1 == 1 {
            o[at + i / 8] ^= 1 << (i % 8);
        }
    }
    o
}

/// What a picture shows, or its bytes if that cannot be told.
pub fn shown(b: &[u8]) -> String {
    if b.len() < 8_000_000 {
        if let Ok(i) = image::load_from_memory(b) {
            let i = i.to_rgba8();
            return format!("px:{}x{}:{:016x}", i.width(), i.height(), crate::util::hash(i.as_raw()));
        }
    }
    format!("raw:{}:{:016x}", b.len(), crate::util::hash(b))
}

pub fn t_el(s: &str) -> El {
    El::new("w:t").a("xml:space", "preserve").t(s)
}

fn fld(t: &str, dirty: bool) -> El {
    El::new("w:fldChar").a("w:fldCharType", t).a("w:dirty", dirty)
}

impl Gen {
    pub fn new(seed: u64, c: Cfg) -> Gen {
        Gen {
            r: Rng::new(seed),
            c,
            n: 0,
            depth: 0,
            styles: vec![],
            nums: vec![],
            next_comment: 0,
            open_comments: vec![],
            all_comments: vec![],
            next_mark: 0,
            open_marks: vec![],
            mark_names: vec![],
            images: vec![],
            para_ids: Default::default(),
            even: false,
            same: None,
            e: Expect::default(),
        }
    }

    /// Starts markers and chosen ids at `n`.
    pub fn apart(mut self, n: usize) -> Gen {
        self.n = n;
        self.next_comment = n;
        self.next_mark = n;
        self
    }

    pub fn unclosed(&self) -> bool {
        !self.open_comments.is_empty() || !self.open_marks.is_empty()
    }

    pub fn m(&mut self) -> String {
        self.n += 1;
        format!("m{}q", self.n)
    }

    pub fn text(&mut self) -> String {
        let m = self.m();
        self.e.counts.texts += 1;
        if self.c.hostile {
            self.r.body_text(&m)
        } else {
            m
        }
    }

    pub fn attr(&mut self) -> String {
        let m = self.m();
        if self.r.one_in(60) {
            return String::new();
        }
        if self.c.hostile {
            self.r.attr_text(&m)
        } else {
            m
        }
    }

    fn w(&mut self, weight: u64) -> bool {
        self.r.pct(weight)
    }

    fn few(&mut self) -> usize {
        match self.r.below(40) {
            0 => 6 + self.r.us(14),
            1..=20 => 1,
            21..=30 => 2,
            _ => 3,
        }
    }

    fn date(&mut self) -> String {
        if self.r.one_in(4) {
            self.attr()
        } else {
            format!(
                "20{:02}-{:02}-{:02}T{:02}:{:02}:00Z",
                self.r.below(40),
                1 + self.r.below(12),
                1 + self.r.below(28),
                self.r.below(24),
                self.r.below(60)
            )
        }
    }

    // ------------------------------------------------------------ runs

    pub fn rps(&mut self) -> Vec<RP> {
        let m = self.m();
        let mut v = RP::gen(&mut self.r, self.c.props, &m, &self.styles, self.c.stretch);
        if !self.c.hostile {
            v.retain(|p| !matches!(p, RP::Fonts(_) | RP::Style(_)));
        }
        self.e.counts.props += v.len() as u64;
        v
    }

    fn dress(&mut self, run: Run) -> (Run, El) {
        let ps = self.rps();
        let mut run = run;
        let mut used = vec![];
        // through the methods of Run, or with a RunProperty of one's own
        let own = self.r.one_in(3);
        let mut rp = RunProperty::new();
        for p in ps {
            if own {
                rp = p.rpr(rp);
                used.push(p);
            } else if p.can(On::Run) {
                run = p.run(run);
                used.push(p);
            }
        }
        if own {
            run.run_property = rp;
        }
        let e = rpr_el(&used);
        (run, e)
    }

    pub fn run(&mut self, pl: Place) -> (Run, El) {
        self.run_of(pl, false)
    }

    /// A run, with deleted text if `gone`.
    fn run_of(&mut self, pl: Place, gone: bool) -> (Run, El) {
        self.e.counts.runs += 1;
        let (mut run, rpr) = self.dress(Run::new());
        let mut e = El::new("w:r").k(rpr);
        let n = match self.r.below(12) {
            0 => 0,
            1..=8 => 1,
            9 | 10 => 2,
            _ => 1 + self.few(),
        };
        for _ in 0..n {
            let k = self.r.below(100);
            if k < 70 {
                let s = self.text();
                if gone {
                    run = run.add_delete_text(&s);
                    e.push(El::new("w:delText").a("xml:space", "preserve").t(s));
                } else {
                    run = run.add_text(&s);
                    e.push(t_el(&s));
                }
            } else if k < 74 {
                run = run.add_tab();
                e.push(El::new("w:tab"));
            } else if k < 79 {
                let (t, s) = *self.r.pick(&[
                    (BreakType::Page, "page"),
                    (BreakType::Column, "column"),
                    (BreakType::TextWrapping, "textWrapping"),
                ]);
                run = run.add_break(t);
                e.push(El::new("w:br").a("w:type", s));
            } else if k < 81 {
                run = run.add_carriage_return();
                e.push(El::new("w:cr"));
            } else if k < 84 {
                let f = self.attr();
                let ch = format!("F{:03X}", self.r.below(0x1000));
                run = run.add_sym(Sym::new(&f, &ch));
                e.push(El::new("w:sym").a("w:font", &f).a("w:char", &ch));
            } else if k < 87 {
                let a = *self.r.pick(PTALIGN);
                let rel = *self.r.pick(PTREL);
                let l = *self.r.pick(LEADER);
                run = run.add_ptab(PositionalTab::new(a.0, rel.0, l.0));
                e.push(El::new("w:ptab").a("w:alignment", a.1).a("w:relativeTo", rel.1).a("w:leader", l.1));
            } else if k < 94 {
                if self.w(self.c.images) && pl.main() || (pl == Place::Header && self.w(self.c.images * 2)) {
                    let (p, el) = self.pic();
                    run = run.add_image(p);
                    e.push(el);
                }
            } else if pl.main() && pl != Place::Toc && self.w(self.c.footnotes * 3) {
                let (f, el) = self.footnote();
                run = run.add_footnote_reference(f);
                e.push(el);
                note_style(&mut e);
            } else {
                let s = self.text();
                if gone {
                    run = run.add_delete_text(&s);
                    e.push(El::new("w:delText").a("xml:space", "preserve").t(s));
                } else {
                    run = run.add_text(&s);
                    e.push(t_el(&s));
                }
            }
        }
        if gone && self.w(self.c.fields) {
            // a deleted field
            self.e.counts.fields += 1;
            let (i, s) = match self.instr() {
                (InstrText::TOC(i), s) => (DeleteInstrText::TOC(i), s),
                (InstrText::TC(i), s) => (DeleteInstrText::TC(i), s),
                (InstrText::PAGEREF(i), s) => (DeleteInstrText::PAGEREF(i), s),
                (InstrText::HYPERLINK(i), s) => (DeleteInstrText::HYPERLINK(i), s),
                (_, s) => (DeleteInstrText::Unsupported(s.clone()), s),
            };
            run = run
                .add_field_char(FieldCharType::Begin, false)
                .add_delete_instr_text(i)
                .add_field_char(FieldCharType::End, false);
            e = e.k(fld("begin", false)).k(El::new("w:delInstrText").t(s)).k(fld("end", false));
        }
        if pl.main() && pl != Place::Toc && self.w(self.c.footnotes) {
            let (f, el) = self.footnote();
            run = run.add_footnote_reference(f);
            e.push(el);
            note_style(&mut e);
        }
        if pl != Place::Comment && pl != Place::Note && self.w(self.c.images) {
            let (p, el) = self.pic();
            run = run.add_image(p);
            e.push(el);
        }
        (run, e)
    }

    pub fn pic(&mut self) -> (Pic, El) {
        self.e.counts.images += 1;
        let w = 1 + self.r.below(6) as u32;
        let h = 1 + self.r.below(6) as u32;
        let seed = if self.r.one_in(4) { 7 } else { self.r.next() };
        let mut cx = w * 9525;
        let mut cy = h * 9525;
        let bytes;
        let mut p = match self.r.below(8) {
            0 | 1 => {
                bytes = png(seed, w, h);
                Pic::new(&bytes)
            }
            2 | 3 if !self.c.readable || self.r.flip() => {
                let b = bmp(seed, w, h);
                let p = Pic::new(&b);
                bytes = if shown(&p.image) == shown(&b) { p.image.clone() } else { b };
                p
            }
            4 => {
                // not to be decoded, or like another one
                bytes = match self.images.last() {
                    Some(b) if b.len() > 5 && self.r.flip() => {
                        let at = self.r.us(b.len() - 4);
                        twin(b, at)
                    }
                    _ => {
                        // larger than what is compressed at once, now and then
                        let n = if self.r.one_in(12) { 30_000 + self.r.us(170_000) } else { 1 + self.r.us(40) };
                        let mut b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                        if self.r.one_in(4) {
                            // a metafile
                            b.resize(n + 44, 0);
                            b[..4].copy_from_slice(&[1, 0, 0, 0]);
                            b[40..44].copy_from_slice(b" EMF");
                        }
                        b
                    }
                };
                Pic::new_with_dimensions(bytes.clone(), w, h)
            }
            _ => {
                bytes = if self.r.one_in(5) { bmp(seed, w, h) } else { png(seed, w, h) };
                Pic::new_with_dimensions(bytes.clone(), w, h)
            }
        };
        if self.r.one_in(8) {
            p = p.id(*self.r.pick(&["pic", "pic_2", "headerpic", "footerpic_2"]));
        }
        self.images.push(bytes.clone());
        let mut e = El::new("w:drawing").a("img", image_sig(&bytes));
        let size = |r: &mut Rng| match r.below(5) {
            0 => 0,
            1 => 2_000_000_000,
            _ => r.below(9_000_000) as u32,
        };
        if self.r.flip() {
            cx = size(&mut self.r);
            cy = size(&mut self.r);
            p = p.size(cx, cy);
        }
        e = e.a("cx", cx).a("cy", cy);
        if self.r.one_in(3) {
            let d = self.r.below(360) as u16;
            p = p.rotate(d);
            if d > 0 {
                e = e.a("rot", d as u32 * 60000);
            }
        }
        let mut dist = [0i32; 4];
        if self.r.one_in(3) {
            for x in dist.iter_mut() {
                *x = self.r.below(400000) as i32;
            }
            p = p.dist_t(dist[0]).dist_b(dist[1]).dist_l(dist[2]).dist_r(dist[3]);
        }
        e = e.a("dist", format!("{},{},{},{}", dist[0], dist[1], dist[2], dist[3]));
        if self.r.flip() {
            p = p.floating();
            e = e.a("kind", "anchor");
            let mut over = "0";
            if self.r.flip() {
                p = p.overlapping();
                over = "1";
            }
            let mut hh = ("offset", "0".to_string());
            let mut vv = ("offset", "0".to_string());
            let off = |r: &mut Rng| num(r, -9_000_000, 9_000_000) as i32;
            match self.r.below(3) {
                0 => {}
                1 => {
                    let (x, y) = (off(&mut self.r), off(&mut self.r));
                    p = p.offset_x(x).offset_y(y);
                    hh.1 = x.to_string();
                    vv.1 = y.to_string();
                }
                _ => {
                    if self.r.flip() {
                        let a = *self.r.pick(PICALIGN);
                        p = p.position_h(DrawingPosition::Align(a.0));
                        hh = ("align", a.1.to_string());
                    }
                    if self.r.flip() {
                        let a = *self.r.pick(PICALIGN);
                        p = p.position_v(DrawingPosition::Align(a.0));
                        vv = ("align", a.1.to_string());
                    }
                }
            }
            let mut rh = "margin";
            let mut rv = "margin";
            if self.r.flip() {
                let a = *self.r.pick(RELH);
                p = p.relative_from_h(a.0);
                rh = a.1;
                let a = *self.r.pick(RELV);
                p = p.relative_from_v(a.0);
                rv = a.1;
            }
            let mut rel = 190500u32;
            if self.r.flip() {
                rel = self.r.next() as u32 & 0x7fffffff;
                p = p.relative_height(rel);
            }
            let mut sp = "0";
            if self.r.one_in(4) {
                p = p.simple_pos(true);
                sp = "1";
            }
            e = e
                .a("overlap", over)
                .a("h", format!("{} {} {}", rh, hh.0, hh.1))
                .a("v", format!("{} {} {}", rv, vv.0, vv.1))
                .a("z", rel)
                .a("simple", sp);
        } else {
            e = e.a("kind", "inline");
        }
        (p, e)
    }

    fn footnote(&mut self) -> (Footnote, El) {
        self.e.counts.notes += 1;
        let mut f = Footnote::new();
        let mut e = El::new("w:footnoteReference");
        let saved = (std::mem::take(&mut self.open_comments), std::mem::take(&mut self.open_marks));
        // a note without content is saved with an empty paragraph
        let empty = self.r.one_in(12);
        if empty {
            e.push(El::new("w:p"));
        }
        for _ in 0..if empty { 0 } else { self.few() } {
            let (p, el) = self.para(Place::Note);
            f.add_content(p);
            e.push(el);
        }
        (self.open_comments, self.open_marks) = saved;
        (f, e)
    }

    fn instr(&mut self) -> (InstrText, String) {
        match self.r.below(7) {
            0 => (InstrText::PAGE(InstrPAGE::new()), "PAGE".into()),
            1 => (InstrText::NUMPAGES(InstrNUMPAGES::new()), "NUMPAGES".into()),
            2 => {
                let m = self.m();
                let mut i = InstrPAGEREF::new(&m);
                let mut s = format!("PAGEREF {m}");
                if self.r.flip() {
                    i = i.relative_position();
                    s += " \\p";
                }
                if self.r.flip() {
                    i = i.hyperlink();
                    s += " \\h";
                }
                (InstrText::PAGEREF(i), s)
            }
            3 => {
                let (i, s) = self.instr_tc();
                (InstrText::TC(i), s)
            }
            4 => {
                let (i, s) = self.instr_toc();
                (InstrText::TOC(i), s)
            }
            5 => {
                let t = self.attr();
                let mut i = InstrHyperlink::new(&t);
                i.anchor = self.r.flip();
                let s = format!("HYPERLINK {}\"{t}\"", if i.anchor { "\\l " } else { "" });
                (InstrText::HYPERLINK(i), s)
            }
            _ => {
                let m = self.m();
                // programs split instructions anywhere
                let t = match self.r.below(5) {
                    0 => format!(" MERGEFIELD {m} "),
                    1 => "  ".to_string(),
                    2 => format!("\t\"{m}\""),
                    _ => format!("MERGEFIELD {m} \\* MERGEFORMAT"),
                };
                (InstrText::Unsupported(t.clone()), t)
            }
        }
    }

    fn instr_tc(&mut self) -> (InstrTC, String) {
        let t = self.attr();
        let mut i = InstrTC::new(&t);
        let mut s = format!("TC \"{t}\"");
        if self.r.flip() {
            let t = if self.r.flip() { "C".to_string() } else { self.m() + *self.r.pick(&["", "&", "<x>", "&amp;"]) };
            i = i.item_type_identifier(&t);
            s += &format!(" \\f {t}");
        }
        if self.r.flip() {
            let l = self.r.us(9);
            i = i.level(l);
            s += &format!(" \\l {l}");
        }
        if self.r.flip() {
            i = i.omits_page_number();
            s += " \\n";
        }
        (i, s)
    }

    /// An argument of a field.
    fn label(&mut self) -> String {
        let m = self.m();
        match self.r.below(6) {
            0 => String::new(),
            1 => format!("{m} & <b>"),
            2 => format!("見出し {m}"),
            3 => format!("{m}\u{1F600}'"),
            _ => m,
        }
    }

    pub fn instr_toc(&mut self) -> (InstrToC, String) {
        let mut i = InstrToC::new();
        let mut s = "TOC".to_string();
        let range = |r: &mut Rng| {
            let a = 1 + r.us(9);
            if r.one_in(6) {
                (a, 1 + r.us(a))
            } else {
                (a, a + r.us(4))
            }
        };
        if self.r.one_in(5) {
            let t = self.attr();
            i = i.caption_label(&t);
            s += &format!(" \\a \"{t}\"");
        }
        if self.r.one_in(5) {
            let t = self.label();
            i = i.entry_bookmark_name(&t);
            s += &format!(" \\b \"{t}\"");
        }
        if self.r.one_in(5) {
            let t = self.attr();
            i = i.caption_label_including_numbers(&t);
            s += &format!(" \\c \"{t}\"");
        }
        if self.r.one_in(5) {
            let t = *self.r.pick(&[":", "-", ".", "–", " ", ""]);
            i = i.sequence_and_page_numbers_separator(t);
            s += &format!(" \\d \"{t}\"");
        }
        if self.r.one_in(4) {
            if self.r.flip() {
                i = i.tc_field_identifier(None);
                s += " \\f";
            } else {
                let t = self.label();
                i = i.tc_field_identifier(Some(t.clone()));
                s += &format!(" \\f \"{t}\"");
            }
        }
        if self.r.one_in(4) {
            let (a, b) = range(&mut self.r);
            i = i.tc_field_level_range(a, b);
            s += &format!(" \\l \"{a}-{b}\"");
        }
        if self.r.one_in(4) {
            let (a, b) = range(&mut self.r);
            i = i.omit_page_numbers_level_range(a, b);
            s += &format!(" \\n \"{a}-{b}\"");
        }
        if self.r.flip() {
            let (a, b) = range(&mut self.r);
            i = i.heading_styles_range(a, b);
            s += &format!(" \\o \"{a}-{b}\"");
        }
        if self.r.one_in(5) {
            let t = *self.r.pick(&["-", ":", ".", "–", " ", ""]);
            i = i.entry_and_page_number_separator(t);
            s += &format!(" \\p \"{t}\"");
        }
        if self.r.one_in(5) {
            let t = self.label();
            i = i.seq_field_identifier_for_prefix(&t);
            s += &format!(" \\s \"{t}\"");
        }
        if self.r.one_in(3) {
            let mut v = vec![];
            for _ in 0..1 + self.r.us(3) {
                let t = self.label();
                let l = 1 + self.r.us(9);
                i = i.add_style_with_level(StyleWithLevel::new(&t, l));
                v.push(format!("{t},{l}"));
            }
            s += &format!(" \\t \"{}\"", v.join(","));
        }
        if self.r.flip() {
            i = i.hyperlink();
            s += " \\h";
        }
        if self.r.one_in(3) {
            i = i.use_applied_paragraph_line_level();
            s += " \\u";
        }
        if self.r.one_in(3) {
            i = i.preserve_tab();
            s += " \\w";
        }
        if self.r.one_in(3) {
            i = i.preserve_new_line();
            s += " \\x";
        }
        if self.r.one_in(3) {
            i = i.hide_tab_and_page_numbers_in_webview();
            s += " \\z";
        }
        (i, s)
    }

    /// The runs of one field.
    fn field(&mut self) -> Vec<(Run, El)> {
        self.e.counts.fields += 1;
        if self.r.one_in(8) {
            let (i, s) = self.instr_tc();
            return vec![(
                Run::new().add_tc(i),
                El::new("w:r").k(fld("begin", false)).k(El::new("w:instrText").t(s)).k(fld("end", false)),
            )];
        }
        let dirty = self.r.flip();
        let (i, s) = self.instr();
        let ie = El::new("w:instrText").t(&s);
        let res = self.text();
        if self.r.flip() {
            let (run, rpr) = self.dress(Run::new());
            let run = run
                .add_field_char(FieldCharType::Begin, dirty)
                .add_instr_text(i)
                .add_field_char(FieldCharType::Separate, false)
                .add_text(&res)
                .add_field_char(FieldCharType::End, false);
            vec![(
                run,
                El::new("w:r")
                    .k(rpr)
                    .k(fld("begin", dirty))
                    .k(ie)
                    .k(fld("separate", false))
                    .k(t_el(&res))
                    .k(fld("end", false)),
            )]
        } else {
            vec![
                (
                    Run::new().add_field_char(FieldCharType::Begin, dirty),
                    El::new("w:r").k(fld("begin", dirty)),
                ),
                (Run::new().add_instr_text(i), El::new("w:r").k(ie)),
                (
                    Run::new().add_field_char(FieldCharType::Separate, false),
                    El::new("w:r").k(fld("separate", false)),
                ),
                (Run::new().add_text(&res), El::new("w:r").k(t_el(&res))),
                (Run::new().add_field_char(FieldCharType::End, false), El::new("w:r").k(fld("end", false))),
            ]
        }
    }

    // ------------------------------------------------------------ comments and bookmarks

    pub fn comment(&mut self) -> (Comment, usize) {
        self.e.counts.comments += 1;
        let id = self.next_comment;
        self.next_comment += 1 + if self.r.one_in(5) { self.r.us(50) } else { 0 };
        let mut c = Comment::new(id);
        let mut e = El::new("w:comment").a("w:id", id);
        if self.r.pct(80) {
            let a = self.attr();
            c = c.author(&a);
            e = e.a("w:author", a);
        } else {
            e = e.a("w:author", "unnamed");
        }
        if self.r.pct(80) {
            let a = self.date();
            c = c.date(&a);
            e = e.a("w:date", a);
        } else {
            e = e.a("w:date", "1970-01-01T00:00:00Z");
        }
        if !self.all_comments.is_empty() && self.r.one_in(3) {
            let p = *self.r.pick(&self.all_comments);
            c = c.parent_comment_id(p);
            e = e.a("parent", p);
        }
        let saved = (std::mem::take(&mut self.open_comments), std::mem::take(&mut self.open_marks));
        let n = self.few();
        for i in 0..n {
            if i + 1 < n && self.c.tables > 0 && self.r.one_in(5) {
                let (t, el) = self.table(Place::Comment);
                c = c.add_table(t);
                e.push(el);
            } else {
                let (p, el) = self.para(Place::Comment);
                c = c.add_paragraph(p);
                e.push(el);
            }
        }
        (self.open_comments, self.open_marks) = saved;
        self.e.comments.push(e);
        self.all_comments.push(id);
        (c, id)
    }

    fn cs(id: usize) -> El {
        El::new("w:commentRangeStart").a("w:id", id)
    }
    fn ce(id: usize) -> Vec<El> {
        vec![
            El::new("w:commentRangeEnd").a("w:id", id),
            El::new("w:r").k(El::new("w:commentReference").a("w:id", id)),
        ]
    }

    fn mark(&mut self) -> (usize, String, El) {
        self.e.counts.marks += 1;
        let id = self.next_mark;
        self.next_mark += 1 + if self.r.one_in(5) { self.r.us(50) } else { 0 };
        let mut name = self.attr();
        if name.is_empty() {
            name = self.m();
        }
        self.mark_names.push(name.clone());
        let e = El::new("w:bookmarkStart").a("w:id", id).a("w:name", &name);
        (id, name, e)
    }

    // ------------------------------------------------------------ tracked changes

    fn who(&mut self) -> (String, String) {
        (self.attr(), self.date())
    }

    fn delete(&mut self, pl: Place, cm: bool) -> (Delete, El) {
        self.e.counts.tracked += 1;
        let (a, d) = self.who();
        let mut o = Delete::new().author(&a).date(&d);
        let mut e = El::new("w:del").a("w:author", a).a("w:date", d);
        let c = if cm && self.w(self.c.comments) { Some(self.comment()) } else { None };
        let mut cid = None;
        if let Some((c, id)) = c {
            o = o.add_comment_start(c);
            e.push(Self::cs(id));
            cid = Some(id);
        }
        for _ in 0..self.few() {
            let (r, el) = self.run_of(pl, true);
            o = o.add_run(r);
            e.push(el);
        }
        if let Some(id) = cid {
            o = o.add_comment_end(id);
            for x in Self::ce(id) {
                e.push(x);
            }
        }
        (o, e)
    }

    fn move_from(&mut self, pl: Place, cm: bool) -> (MoveFrom, El) {
        self.e.counts.tracked += 1;
        let (a, d) = self.who();
        let mut o = MoveFrom::new().author(&a).date(&d);
        let mut e = El::new("w:moveFrom").a("w:author", a).a("w:date", d);
        let c = if cm && self.w(self.c.comments) { Some(self.comment()) } else { None };
        let mut cid = None;
        if let Some((c, id)) = c {
            o = o.add_comment_start(c);
            e.push(Self::cs(id));
            cid = Some(id);
        }
        for _ in 0..self.few() {
            let (r, el) = self.run(pl);
            o = o.add_run(r);
            e.push(el);
        }
        if let Some(id) = cid {
            o = o.add_comment_end(id);
            for x in Self::ce(id) {
                e.push(x);
            }
        }
        (o, e)
    }

    fn insert(&mut self, pl: Place, cm: bool) -> (Insert, El) {
        self.e.counts.tracked += 1;
        let (a, d) = self.who();
        let mut o = Insert::new_with_empty().author(&a).date(&d);
        let mut e = El::new("w:ins").a("w:author", a).a("w:date", d);
        let c = if cm && self.w(self.c.comments) { Some(self.comment()) } else { None };
        let mut cid = None;
        if let Some((c, id)) = c {
            o = o.add_comment_start(c);
            e.push(Self::cs(id));
            cid = Some(id);
        }
        for i in 0..self.few() {
            let fresh = i == 0 && cid.is_none() && self.r.flip();
            if self.r.one_in(4) {
                let (r, el) = self.delete(pl, cm);
                o = match self.r.below(3) {
                    _ if fresh => Insert::new_with_del(r).author(&o.author).date(&o.date),
                    0 => o.add_child(InsertChild::Delete(r)),
                    _ => o.add_delete(r),
                };
                e.push(el);
            } else {
                let (r, el) = self.run(pl);
                o = match self.r.below(3) {
                    _ if fresh => Insert::new(r).author(&o.author).date(&o.date),
                    0 => o.add_child(InsertChild::Run(Box::new(r))),
                    _ => o.add_run(r),
                };
                e.push(el);
            }
        }
        if let Some(id) = cid {
            o = o.add_comment_end(id);
            for x in Self::ce(id) {
                e.push(x);
            }
        }
        (o, e)
    }

    fn move_to(&mut self, pl: Place, cm: bool) -> (MoveTo, El) {
        self.e.counts.tracked += 1;
        let (a, d) = self.who();
        let mut o = MoveTo::new_with_empty().author(&a).date(&d);
        let mut e = El::new("w:moveTo").a("w:author", a).a("w:date", d);
        let c = if cm && self.w(self.c.comments) { Some(self.comment()) } else { None };
        let mut cid = None;
        if let Some((c, id)) = c {
            o = o.add_comment_start(c);
            e.push(Self::cs(id));
            cid = Some(id);
        }
        for i in 0..self.few() {
            let fresh = i == 0 && cid.is_none() && self.r.flip();
            if self.r.one_in(4) {
                let (r, el) = self.delete(pl, cm);
                o = match self.r.below(3) {
                    0 => o.add_child(MoveToChild::Delete(r)),
                    _ => o.add_delete(r),
                };
                e.push(el);
            } else {
                let (r, el) = self.run(pl);
                o = match self.r.below(3) {
                    _ if fresh => MoveTo::new(r).author(&o.author).date(&o.date),
                    0 => o.add_child(MoveToChild::Run(Box::new(r))),
                    _ => o.add_run(r),
                };
                e.push(el);
            }
        }
        if let Some(id) = cid {
            o = o.add_comment_end(id);
            for x in Self::ce(id) {
                e.push(x);
            }
        }
        (o, e)
    }

    // ------------------------------------------------------------ links and tags

    fn link(&mut self, pl: Place) -> (Hyperlink, El) {
        self.e.counts.links += 1;
        let ext_ok = match pl {
            Place::Comment | Place::Note => false,
            Place::Header => self.c.header_links,
            _ => true,
        } && self.c.ext_links;
        let (mut h, mut e);
        if ext_ok && self.r.pct(60) {
            let m = self.m();
            let url = match self.r.below(10) {
                4 => format!("/shared/{m}/a%20b.docx"),
                5 => format!("../{m}.docx#part"),
                6 => format!("#{m}"),
                7 => format!("media/{m}.png"),
                8 => format!("HTTP://EXAMPLE.com/{m}/"),
                0 => format!("https://example.com/{m}?a=1&b=<2>&c=\"3\"'#f"),
                1 => "https://example.com/same".to_string(),
                2 => format!("file:///C:\\dir\\{m}.docx"),
                _ => format!("mailto:{m}@example.com"),
            };
            h = Hyperlink::new(&url, HyperlinkType::External);
            e = El::new("w:hyperlink").a("url", url);
        } else {
            let a = if !self.mark_names.is_empty() && self.r.flip() {
                self.r.pick(&self.mark_names).clone()
            } else {
                self.attr()
            };
            h = Hyperlink::new(&a, HyperlinkType::Anchor);
            e = El::new("w:hyperlink").a("w:anchor", a);
        }
        if self.r.one_in(4) {
            let n = self.r.us(2);
            h.history = Some(n);
            e = e.a("w:history", n);
        }
        for _ in 0..self.few() {
            match self.r.below(13) {
                0 if self.c.tracked > 0 => {
                    let (x, el) = self.insert(pl, pl.main());
                    h = h.add_insert(x);
                    e.push(el);
                }
                5 if self.c.tracked > 0 => {
                    if self.r.flip() {
                        let (x, el) = self.move_from(pl, pl.main());
                        h.children.push(ParagraphChild::MoveFrom(x));
                        e.push(el);
                    } else {
                        let (x, el) = self.move_to(pl, pl.main());
                        h.children.push(ParagraphChild::MoveTo(x));
                        e.push(el);
                    }
                }
                1 if self.c.tracked > 0 => {
                    let (x, el) = self.delete(pl, pl.main());
                    h = h.add_delete(x);
                    e.push(el);
                }
                2 if self.c.bookmarks > 0 => {
                    let (id, name, el) = self.mark();
                    h = h.add_bookmark_start(id, name).add_bookmark_end(id);
                    e.push(el);
                    e.push(El::new("w:bookmarkEnd").a("w:id", id));
                }
                3 if self.c.comments > 0 && pl.main() => {
                    let (c, id) = self.comment();
                    h = h.add_comment_start(c);
                    e.push(Self::cs(id));
                    let (r, el) = self.run(pl);
                    h = h.add_run(r).add_comment_end(id);
                    e.push(el);
                    for x in Self::ce(id) {
                        e.push(x);
                    }
                }
                4 if self.c.sdt > 0 => {
                    let (s, el) = self.sdt_inline(pl);
                    h = h.add_structured_data_tag(s);
                    e.push(el);
                }
                _ => {
                    let (r, el) = self.run(pl);
                    h = h.add_run(r);
                    e.push(el);
                }
            }
        }
        (h, e)
    }

    fn sdt_head(&mut self) -> (StructuredDataTag, El) {
        self.e.counts.sdts += 1;
        let mut s = StructuredDataTag::new();
        let mut p = El::new("w:sdtPr");
        if self.r.flip() {
            let a = self.attr();
            s = s.alias(&a);
            p.push(v("w:alias", a));
        }
        if self.r.flip() {
            let mut d = DataBinding::new();
            let mut e = El::new("w:dataBinding");
            if self.r.flip() {
                let a = self.attr();
                d = d.xpath(&a);
                e = e.a("w:xpath", a);
            }
            if self.r.flip() {
                let a = self.attr();
                d = d.prefix_mappings(&a);
                e = e.a("w:prefixMappings", a);
            }
            if self.r.flip() || e.attrs.is_empty() {
                let a = self.attr();
                d = d.store_item_id(&a);
                e = e.a("w:storeItemID", a);
            }
            s = s.data_binding(d);
            p.push(e);
        }
        (s, p)
    }

    fn sdt_inline(&mut self, pl: Place) -> (StructuredDataTag, El) {
        let (mut s, p) = self.sdt_head();
        let mut c = El::new("w:sdtContent");
        for _ in 0..self.few() {
            let (r, el) = self.run(pl);
            s = s.add_run(r);
            c.push(el);
        }
        (s, El::new("w:sdt").k(p).k(c))
    }

    fn sdt_block(&mut self, pl: Place) -> (StructuredDataTag, El) {
        let (mut s, p) = self.sdt_head();
        let mut c = El::new("w:sdtContent");
        self.depth += 1;
        for _ in 0..self.few() {
            if self.depth < 4 && self.w(self.c.tables) {
                let (t, el) = self.table(pl);
                s = s.add_table(t);
                c.push(el);
            } else {
                let (t, el) = self.para(if pl.main() { Place::Sdt } else { pl });
                s = s.add_paragraph(t);
                c.push(el);
            }
        }
        self.depth -= 1;
        (s, El::new("w:sdt").k(p).k(c))
    }

    // ------------------------------------------------------------ paragraphs

    pub fn pps(&mut self) -> Vec<PP> {
        let m = self.m();
        let mut v = PP::gen(
            &mut self.r,
            PCfg { pct: self.c.pprops, m: &m, styles: &self.styles, nums: &self.nums, frame: self.c.frames },
        );
        if !self.c.hostile {
            v.retain(|p| !matches!(p, PP::Style(_)));
        }
        self.e.counts.props += v.len() as u64;
        v
    }

    pub fn para(&mut self, pl: Place) -> (Paragraph, El) {
        self.e.counts.paras += 1;
        // the very same paragraph used several times
        if self.r.one_in(25) {
            let p = self.same.get_or_insert_with(|| Paragraph::new().add_run(Run::new().add_text("ibid.")));
            return (p.clone(), El::new("w:p").k(El::new("w:pPr")).k(El::new("w:r").k(t_el("ibid."))));
        }
        let mut p = Paragraph::new();
        let mut e = El::new("w:p");
        if self.w(self.c.para_ids) {
            let id = format!("{:08X}", 0x10000000 + self.r.below(0x60000000));
            if self.para_ids.insert(id.clone()) {
                p = p.id(&id);
                e = e.a("w14:paraId", id);
            }
        }
        // properties
        let mut ppr = El::new("w:pPr");
        let mut rpr = El::new("w:rPr");
        for x in self.pps() {
            p = x.para(p);
            ppr.push(x.el());
        }
        if self.r.pct(self.c.props) {
            let rps = self.rps();
            if self.r.flip() {
                for x in rps {
                    if x.can(On::Para) {
                        p = x.para(p);
                        for y in x.els() {
                            rpr.push(y);
                        }
                    }
                }
            } else {
                let mut rp = RunProperty::new();
                for x in rps {
                    rp = x.rpr(rp);
                    for y in x.els() {
                        rpr.push(y);
                    }
                }
                p = p.run_property(rp);
            }
        }
        if self.w(self.c.tracked) && self.r.one_in(3) {
            self.e.counts.tracked += 1;
            let (a, d) = self.who();
            if self.r.flip() {
                p = p.insert(&a, &d);
                rpr.push(El::new("w:ins").a("w:author", a).a("w:date", d));
            } else {
                p = p.delete(&a, &d);
                rpr.push(El::new("w:del").a("w:author", a).a("w:date", d));
            }
        }
        if self.w(self.c.tracked) && self.r.one_in(3) {
            self.e.counts.tracked += 1;
            let (a, d) = self.who();
            let mut inner = El::new("w:pPr");
            let mut pp = ParagraphProperty::new();
            for x in self.pps() {
                pp = x.ppr(pp);
                inner.push(x.el());
            }
            if self.r.flip() {
                pp = pp.align(AlignmentType::Left);
                inner.kids.retain(|k| !matches!(k, crate::xml::Node::E(e) if e.name == "w:jc"));
                inner.push(v("w:jc", "left"));
            }
            p = p.paragraph_property_change(ParagraphPropertyChange::new().property(pp).author(&a).date(&d));
            ppr.push(El::new("w:pPrChange").a("w:author", a).a("w:date", d).k(inner));
        }
        ppr.push(rpr);
        e.push(ppr);

        // ends of what earlier paragraphs left open
        while !self.open_comments.is_empty() && self.r.flip() {
            let id = self.open_comments.remove(0);
            p = p.add_comment_end(id);
            for x in Self::ce(id) {
                e.push(x);
            }
        }
        while !self.open_marks.is_empty() && self.r.flip() {
            let id = self.open_marks.remove(0);
            p = p.add_bookmark_end(id);
            e.push(El::new("w:bookmarkEnd").a("w:id", id));
        }

        let n = match self.r.below(40) {
            0..=3 => 0,
            4..=20 => 1,
            21..=30 => 2,
            31..=38 => 3 + self.r.us(3),
            _ => 12,
        };
        let cm = pl.main() && pl != Place::Toc;
        for _ in 0..n {
            if self.w(self.c.links) && pl != Place::Toc {
                let (h, el) = self.link(pl);
                p = p.add_hyperlink(h);
                e.push(el);
            }
            if self.w(self.c.sdt) {
                let (s, el) = self.sdt_inline(pl);
                p = p.add_structured_data_tag(s);
                e.push(el);
            }
            if self.w(self.c.tracked) {
                match self.r.below(4) {
                    0 => {
                        let (x, el) = self.insert(pl, cm);
                        p = p.add_insert(x);
                        e.push(el);
                    }
                    1 => {
                        let (x, el) = self.delete(pl, cm);
                        p = p.add_delete(x);
                        e.push(el);
                    }
                    2 => {
                        let (x, el) = self.move_from(pl, cm);
                        p = p.add_move_from(x);
                        e.push(el);
                    }
                    _ => {
                        let (x, el) = self.move_to(pl, cm);
                        p = p.add_move_to(x);
                        e.push(el);
                    }
                }
            }
            if cm && self.w(self.c.comments) {
                let (c, id) = self.comment();
                p = p.add_comment_start(c);
                e.push(Self::cs(id));
                self.open_comments.push(id);
            }
            if self.w(self.c.bookmarks) {
                let (id, name, el) = self.mark();
                p = p.add_bookmark_start(id, name);
                e.push(el);
                self.open_marks.push(id);
            }
            if self.w(self.c.fields) {
                match self.r.below(4) {
                    0 => {
                        p = p.add_page_num(PageNum::new());
                        e.push(page_field("PAGE"));
                    }
                    1 => {
                        p = p.add_num_pages(NumPages::new());
                        e.push(page_field("NUMPAGES"));
                    }
                    _ => {
                        for (r, el) in self.field() {
                            p = p.add_run(r);
                            e.push(el);
                        }
                    }
                }
            }
            let (r, el) = self.run(pl);
            p = p.add_run(r);
            e.push(el);
            while !self.open_comments.is_empty() && self.r.flip() {
                let id = self.open_comments.pop().unwrap();
                p = p.add_comment_end(id);
                for x in Self::ce(id) {
                    e.push(x);
                }
            }
            while !self.open_marks.is_empty() && self.r.flip() {
                let id = self.open_marks.pop().unwrap();
                p = p.add_bookmark_end(id);
                e.push(El::new("w:bookmarkEnd").a("w:id", id));
            }
        }
        (p, e)
    }

    /// A paragraph that ends everything left open.
    fn closing(&mut self) -> Option<(Paragraph, El)> {
        if self.open_comments.is_empty() && self.open_marks.is_empty() {
            return None;
        }
        let mut p = Paragraph::new();
        let mut e = El::new("w:p");
        for id in std::mem::take(&mut self.open_comments) {
            p = p.add_comment_end(id);
            for x in Self::ce(id) {
                e.push(x);
            }
        }
        for id in std::mem::take(&mut self.open_marks) {
            p = p.add_bookmark_end(id);
            e.push(El::new("w:bookmarkEnd").a("w:id", id));
        }
        Some((p, e))
    }

    // ------------------------------------------------------------ tables

    fn width(&mut self) -> (usize, usize) {
        let top = if self.r.one_in(8) { 20_000_000 } else { 31680 };
        (num(&mut self.r, 0, top) as usize, self.r.us(WIDTH.len()))
    }

    fn table_borders(&mut self) -> (Vec<(usize, usize, usize, String)>, TableBorders, El) {
        let mut o = TableBorders::with_empty();
        let mut e = El::new("w:tblBorders");
        let mut list = vec![];
        for i in 0..TBPOS.len() {
            if self.r.flip() {
                let (t, s, c) = (self.r.us(BORDER.len()), num(&mut self.r, 0, 96) as usize, color(&mut self.r));
                o = o.set(TableBorder::new(tbpos(i)).border_type(BORDER[t].0).size(s).color(&c));
                e.push(border_el(TBPOS[i], t, s, &c));
                list.push((i, t, s, c));
            }
        }
        (list, o, e)
    }

    /// The formatting of a table, as calls and the elements they stand for.
    pub fn table_ops(&mut self, style: bool) -> (bool, Vec<TOp>, El) {
        let pct = (self.c.props * 2).min(60);
        let mut o = vec![];
        let bordered = self.r.pct(70);
        let mut e = El::new("w:tblPr");
        let mut borders = El::new("w:tblBorders");
        if bordered {
            for b in TBPOS {
                borders.push(border_el(b, 2, 2, "000000"));
            }
        }
        let set = |borders: &mut El, x: El| {
            borders.kids.retain(|k| !matches!(k, crate::xml::Node::E(e) if e.name == x.name));
            borders.push(x);
        };
        let mut w = (0, 1);
        if self.r.pct(pct) {
            w = self.width();
            o.push(TOp::Width(w.0, WIDTH[w.1].0));
        }
        e.push(El::new("w:tblW").a("w:w", w.0).a("w:type", WIDTH[w.1].1));
        let mut jc = "left";
        if self.r.pct(pct) {
            let a = *self.r.pick(TALIGN);
            o.push(TOp::Align(a.0));
            jc = a.1;
        }
        e.push(v("w:jc", jc));
        if self.r.pct(pct) {
            match self.r.below(4) {
                0 => {
                    let (_, b, x) = self.table_borders();
                    o.push(TOp::Borders(b));
                    borders = x;
                }
                1 => {
                    let i = self.r.us(TBPOS.len());
                    let (t, s, c) = (self.r.us(BORDER.len()), num(&mut self.r, 0, 96) as usize, color(&mut self.r));
                    o.push(TOp::Border(TableBorder::new(tbpos(i)).border_type(BORDER[t].0).size(s).color(&c)));
                    set(&mut borders, border_el(TBPOS[i], t, s, &c));
                }
                2 => {
                    let i = self.r.us(TBPOS.len());
                    o.push(TOp::Clear(i));
                    set(&mut borders, border_el(TBPOS[i], 0, 2, "000000"));
                }
                _ => {
                    o.push(TOp::ClearAll);
                    borders = El::new("w:tblBorders");
                    for b in TBPOS {
                        borders.push(border_el(b, 0, 2, "000000"));
                    }
                }
            }
        }
        e.push(borders);
        if self.r.pct(pct) {
            let mut mar = El::new("w:tblCellMar");
            let mut ms = TableCellMargins::new();
            let one = !style && self.r.one_in(3);
            let mut sides: Vec<(usize, usize)> = (0..4).map(|_| self.width()).collect();
            if self.r.one_in(3) {
                sides.iter_mut().for_each(|s| s.1 = 0);
            }
            let s = |i: usize| (sides[i].0, WIDTH[sides[i].1].0);
            ms = ms
                .margin_top(s(0).0, s(0).1)
                .margin_left(s(1).0, s(1).1)
                .margin_bottom(s(2).0, s(2).1)
                .margin_right(s(3).0, s(3).1);
            for (i, n) in ["top", "left", "bottom", "right"].iter().enumerate() {
                mar.push(El::new(&format!("w:{n}")).a("w:w", sides[i].0).a("w:type", WIDTH[sides[i].1].1));
            }
            if one {
                // set one by one on the property
                for (i, s) in sides.iter().enumerate() {
                    o.push(TOp::Margin(i, s.0, WIDTH[s.1].0));
                }
            } else {
                if sides.iter().all(|s| s.1 == 0) {
                    ms = TableCellMargins::new().margin(sides[0].0, sides[3].0, sides[2].0, sides[1].0);
                }
                o.push(TOp::Margins(ms));
            }
            e.push(mar);
        }
        if self.r.pct(pct) {
            let n = num(&mut self.r, -31680, 31680) as i32;
            if n != 0 {
                o.push(TOp::Indent(n));
                e.push(El::new("w:tblInd").a("w:w", n).a("w:type", "dxa"));
            }
        }
        if self.r.pct(pct) {
            let s = self.attr();
            o.push(TOp::Style(s.clone()));
            e.push(v("w:tblStyle", s));
        }
        if self.r.pct(pct) {
            let l = *self.r.pick(TLAYOUT);
            o.push(TOp::Layout(l.0));
            e.push(El::new("w:tblLayout").a("w:type", l.1));
        }
        if !style && self.r.pct(pct) {
            let mut p = TablePositionProperty::new();
            let mut x = El::new("w:tblpPr");
            let n = |r: &mut Rng| num(r, -31680, 31680) as i32;
            if self.r.flip() {
                let k = n(&mut self.r).abs();
                p = p.left_from_text(k);
                x = x.a("w:leftFromText", k);
            }
            if self.r.flip() {
                let k = n(&mut self.r).abs();
                p = p.right_from_text(k);
                x = x.a("w:rightFromText", k);
            }
            if self.r.flip() {
                let s = *self.r.pick(&["page", "margin", "text"]);
                p = p.vertical_anchor(s);
                x = x.a("w:vertAnchor", s);
            }
            if self.r.flip() {
                let s = *self.r.pick(&["page", "margin", "text"]);
                p = p.horizontal_anchor(s);
                x = x.a("w:horzAnchor", s);
            }
            if self.r.flip() {
                let s = *self.r.pick(&["left", "center", "right"]);
                p = p.position_x_alignment(s);
                x = x.a("w:tblpXSpec", s);
            }
            if self.r.flip() {
                let s = *self.r.pick(&["top", "center", "bottom"]);
                p = p.position_y_alignment(s);
                x = x.a("w:tblpYSpec", s);
            }
            if self.r.flip() {
                let k = n(&mut self.r);
                p = p.position_x(k);
                x = x.a("w:tblpX", k);
            }
            if self.r.flip() || x.attrs.is_empty() {
                let k = n(&mut self.r);
                p = p.position_y(k);
                x = x.a("w:tblpY", k);
            }
            o.push(TOp::Position(p));
            e.push(x);
        }
        (bordered, o, e)
    }

    fn cell_ops(&mut self) -> (Vec<COp>, El) {
        let pct = (self.c.props * 2).min(60);
        let mut o = vec![];
        let mut e = El::new("w:tcPr");
        if self.r.pct(pct) {
            let w = self.width();
            o.push(COp::Width(w.0, WIDTH[w.1].0));
            e.push(El::new("w:tcW").a("w:w", w.0).a("w:type", WIDTH[w.1].1));
        }
        if self.r.pct(pct) {
            let i = self.r.us(2);
            o.push(COp::Merge(VMERGE[i].0));
            e.push(v("w:vMerge", VMERGE[i].1));
        }
        if self.r.pct(pct) {
            let i = self.r.us(3);
            o.push(COp::Align(VALIGN[i].0));
            e.push(v("w:vAlign", VALIGN[i].1));
        }
        if self.r.pct(pct) {
            let i = self.r.us(TDIR.len());
            o.push(COp::Dir(TDIR[i].0));
            e.push(v("w:textDirection", TDIR[i].1));
        }
        if self.r.pct(pct) {
            let n = num(&mut self.r, 1, 63) as usize;
            o.push(COp::Span(n));
            e.push(v("w:gridSpan", n));
        }
        if self.r.pct(pct) {
            let s = Shd::gen(&mut self.r);
            o.push(COp::Shading(s.obj()));
            e.push(s.el());
        }
        if self.r.pct(pct) {
            let mut x = El::new("w:tcBorders");
            match self.r.below(4) {
                0 => {
                    let mut b = TableCellBorders::with_empty();
                    for i in 0..CBPOS.len() {
                        if self.r.flip() {
                            let (t, s, c) =
                                (self.r.us(BORDER.len()), num(&mut self.r, 0, 96) as usize, color(&mut self.r));
                            b = b.set(TableCellBorder::new(cbpos(i)).border_type(BORDER[t].0).size(s).color(&c));
                            x.push(border_el(CBPOS[i], t, s, &c));
                        }
                    }
                    o.push(COp::Borders(b));
                }
                1 => {
                    let i = self.r.us(CBPOS.len());
                    let (t, s, c) = (self.r.us(BORDER.len()), num(&mut self.r, 0, 96) as usize, color(&mut self.r));
                    o.push(COp::Border(TableCellBorder::new(cbpos(i)).border_type(BORDER[t].0).size(s).color(&c)));
                    for (j, n) in CBPOS.iter().enumerate() {
                        if j == i {
                            x.push(border_el(n, t, s, &c));
                        } else if j < 6 {
                            x.push(border_el(n, 2, 2, "000000"));
                        }
                    }
                }
                2 => {
                    let i = self.r.us(CBPOS.len());
                    o.push(COp::Clear(i));
                    for (j, n) in CBPOS.iter().enumerate() {
                        if j == i {
                            x.push(border_el(n, 0, 2, "000000"));
                        } else if j < 6 {
                            x.push(border_el(n, 2, 2, "000000"));
                        }
                    }
                }
                _ => {
                    o.push(COp::ClearAll);
                    for n in CBPOS {
                        x.push(border_el(n, 0, 2, "000000"));
                    }
                }
            }
            e.push(x);
        }
        if self.r.pct(pct) {
            let mut m = CellMargins::new();
            let one = self.r.one_in(3);
            let mut x = El::new("w:tcMar");
            for (i, n) in ["top", "left", "bottom", "right"].iter().enumerate() {
                if self.r.flip() || (i == 3 && x.kids.is_empty()) {
                    let w = self.width();
                    let t = WIDTH[w.1].0;
                    if one {
                        o.push(COp::Margin(i, w.0, t));
                    }
                    m = match i {
                        0 => m.margin_top(w.0, t),
                        1 => m.margin_left(w.0, t),
                        2 => m.margin_bottom(w.0, t),
                        _ => m.margin_right(w.0, t),
                    };
                    x.push(El::new(&format!("w:{n}")).a("w:w", w.0).a("w:type", WIDTH[w.1].1));
                }
            }
            if !one {
                o.push(COp::Margins(m));
            }
            e.push(x);
        }
        (o, e)
    }

    /// The formatting of a table style.
    pub fn table_property(&mut self, style: bool) -> (TableProperty, El) {
        let (bordered, ops, e) = self.table_ops(style);
        let o = if bordered { TableProperty::new() } else { TableProperty::without_borders() };
        (ops.into_iter().fold(o, |o, x| x.property(o)), e)
    }

    fn cell_property(&mut self) -> (TableCellProperty, El) {
        let (ops, e) = self.cell_ops();
        (ops.into_iter().fold(TableCellProperty::new(), |o, x| x.property(o)), e)
    }

    pub fn table(&mut self, pl: Place) -> (Table, El) {
        self.e.counts.tables += 1;
        self.depth += 1;
        let rows = self.few().min(6);
        let cols = 1 + self.r.us(3);
        let inner = if pl.main() { Place::Cell } else { pl };
        let (bordered, ops, pe) = self.table_ops(false);
        let mut t = if bordered { Table::new(vec![]) } else { Table::without_borders(vec![]) };
        let own = self.r.flip();
        for o in ops {
            if own {
                t = o.table(t);
            } else {
                t.property = o.property(t.property);
            }
        }
        let mut e = El::new("w:tbl").k(pe);
        let mut grid = El::new("w:tblGrid");
        if self.r.pct(70) {
            let g: Vec<usize> = (0..cols).map(|_| num(&mut self.r, 0, 31680) as usize).collect();
            for x in &g {
                grid.push(El::new("w:gridCol").a("w:w", x).a("w:type", "dxa"));
            }
            t = t.set_grid(g);
        }
        e.push(grid);
        let pct = (self.c.props * 2).min(60);
        for _ in 0..rows {
            let mut cells = vec![];
            let mut cels = vec![];
            for _ in 0..cols {
                self.e.counts.cells += 1;
                let (ops, ce) = self.cell_ops();
                let mut c = TableCell::new();
                for o in ops {
                    if own {
                        c = o.cell(c);
                    } else {
                        c.property = o.property(c.property);
                    }
                }
                let mut x = El::new("w:tc").k(ce);
                let mut last_table = false;
                let n = if self.r.one_in(6) { 0 } else { self.few() };
                for _ in 0..n {
                    if self.depth < 3 && self.w(self.c.tables) {
                        let (t, el) = self.table(pl);
                        c = c.add_table(t);
                        x.push(el);
                        last_table = true;
                    } else if self.depth < 3 && pl.main() && self.w(self.c.sdt) {
                        let (t, el) = self.sdt_block(inner);
                        c = c.add_structured_data_tag(t);
                        x.push(el);
                        last_table = false;
                    } else if self.depth < 2 && pl == Place::Body && self.w(self.c.toc / 2) {
                        let (t, els) = self.toc();
                        c = c.add_table_of_contents(t);
                        x = x.ks(els);
                        last_table = true;
                    } else {
                        let (p, el) = self.para(inner);
                        c = c.add_paragraph(p);
                        x.push(el);
                        last_table = false;
                    }
                }
                if n == 0 {
                    x.push(El::new("w:p"));
                }
                if last_table {
                    let (p, el) = self.para(inner);
                    c = c.add_paragraph(p);
                    x.push(el);
                }
                cells.push(c);
                cels.push(x);
            }
            let mut row = TableRow::new(cells);
            let mut tr = El::new("w:trPr");
            if self.r.pct(pct) {
                let n = num(&mut self.r, 0, 63) as u32;
                row = row.grid_before(n);
                tr.push(v("w:gridBefore", n));
            }
            if self.r.pct(pct) {
                let n = num(&mut self.r, 0, 63) as u32;
                row = row.grid_after(n);
                tr.push(v("w:gridAfter", n));
            }
            if self.r.pct(pct) {
                let n = num(&mut self.r, 0, 31680);
                row = row.width_before(n as f32);
                tr.push(El::new("w:wBefore").a("w:w", n).a("w:type", "dxa"));
            }
            if self.r.pct(pct) {
                let n = num(&mut self.r, 0, 31680);
                row = row.width_after(n as f32);
                tr.push(El::new("w:wAfter").a("w:w", n).a("w:type", "dxa"));
            }
            if self.r.pct(pct) {
                row = row.cant_split();
                tr.push(El::new("w:cantSplit"));
            }
            if self.r.pct(pct) {
                let n = num(&mut self.r, 0, 31680);
                row = row.row_height(n as f32);
                let mut x = v("w:trHeight", n);
                if self.r.flip() {
                    let h = *self.r.pick(&[(HeightRule::Auto, "auto"), (HeightRule::AtLeast, "atLeast"), (HeightRule::Exact, "exact")]);
                    row = row.height_rule(h.0);
                    x = x.a("w:hRule", h.1);
                } else {
                    x = x.a("w:hRule", "atLeast");
                }
                tr.push(x);
            }
            if self.w(self.c.tracked) {
                self.e.counts.tracked += 1;
                let (a, d) = self.who();
                if self.r.flip() {
                    row = row.insert(Insert::new_with_empty().author(&a).date(&d));
                    tr.push(El::new("w:ins").a("w:author", a).a("w:date", d));
                } else {
                    row = row.delete(Delete::new().author(&a).date(&d));
                    tr.push(El::new("w:del").a("w:author", a).a("w:date", d));
                }
            }
            t = t.add_row(row);
            e.push(El::new("w:tr").k(tr).ks(cels));
        }
        self.depth -= 1;
        (t, e)
    }

    // ------------------------------------------------------------ sections, headers, footers

    fn hf_content(&mut self) -> Vec<(Block, El)> {
        let mut v = vec![];
        let saved = (std::mem::take(&mut self.open_comments), std::mem::take(&mut self.open_marks));
        for _ in 0..self.few() {
            if self.w(self.c.tables) {
                let (t, e) = self.table(Place::Header);
                v.push((Block::T(t), e));
            } else {
                let (t, e) = self.para(Place::Header);
                v.push((Block::P(t), e));
            }
        }
        if let Some((p, e)) = self.closing() {
            v.push((Block::P(p), e));
        }
        (self.open_comments, self.open_marks) = saved;
        v
    }

    fn header(&mut self, typ: &str) -> (Header, El) {
        self.e.counts.headers += 1;
        let mut h = Header::new();
        let mut e = El::new("w:headerReference").a("w:type", typ);
        for (b, el) in self.hf_content() {
            h = match b {
                Block::P(p) => h.add_paragraph(p),
                Block::T(t) => h.add_table(t),
                _ => unreachable!(),
            };
            e.push(el);
        }
        (h, e)
    }

    fn footer(&mut self, typ: &str) -> (Footer, El) {
        self.e.counts.headers += 1;
        let mut h = Footer::new();
        let mut e = El::new("w:footerReference").a("w:type", typ);
        for (b, el) in self.hf_content() {
            h = match b {
                Block::P(p) => h.add_paragraph(p),
                Block::T(t) => h.add_table(t),
                _ => unreachable!(),
            };
            e.push(el);
        }
        (h, e)
    }

    /// Properties of a section other than its headers; (object, elements)
    fn section_property(&mut self) -> (SectionProperty, SecE) {
        let mut s = SectionProperty::new();
        let mut e = SecE::default();
        self.e.counts.sections += 1;
        if self.r.flip() {
            let (w, h) = (num(&mut self.r, 0, 31680) as u32, num(&mut self.r, 0, 31680) as u32);
            let size = if self.r.flip() { PageSize::new().size(w, h) } else { PageSize::new().height(h).width(w) };
            s = if !self.c.readable && self.r.one_in(3) {
                let o = *self.r.pick(ORIENT);
                e.orient = Some(o.1);
                s.page_size(size.orient(o.0))
            } else {
                s.page_size(size)
            };
            e.size = (w, h);
        }
        if !self.c.readable && self.r.one_in(3) {
            let o = *self.r.pick(ORIENT);
            s = s.page_orient(o.0);
            e.orient = Some(o.1);
        }
        if self.r.flip() {
            let m = self.page_margin();
            e.margin = m;
            s = s.page_margin(margin_obj(m));
        }
        if self.r.one_in(3) {
            let (g, x) = self.doc_grid();
            s = s.doc_grid(g);
            e.rest.push(x);
        }
        if self.r.one_in(4) {
            let d = self.r.pick(&["tbRl", "btLr", "lrTbV", "tbRlV", "tbLrV"]).to_string();
            s = s.text_direction(d.clone());
            e.rest.push(v("w:textDirection", d));
        }
        if self.r.one_in(4) {
            s = s.title_pg();
            e.title = true;
        }
        if self.r.one_in(4) {
            let (p, x) = self.page_num_type();
            s = s.page_num_type(p);
            e.rest.push(x);
        }
        if self.r.one_in(4) {
            let t = *self.r.pick(SECTYPE);
            s.section_type = Some(t.0);
            e.rest.push(v("w:type", t.1));
        }
        if self.r.one_in(4) {
            s.columns = num(&mut self.r, 1, 45) as usize;
            s.space = num(&mut self.r, 0, 31680) as usize;
            e.cols = (s.space, s.columns);
        }
        (s, e)
    }

    fn page_margin(&mut self) -> [i32; 7] {
        let mut m = [0; 7];
        for (i, x) in m.iter_mut().enumerate() {
            *x = num(&mut self.r, if i == 0 || i == 2 { -31680 } else { 0 }, 31680) as i32;
        }
        m
    }

    fn doc_grid(&mut self) -> (DocGrid, El) {
        let t = *self.r.pick(GRIDTYPE);
        let mut g = DocGrid::with_empty().grid_type(t.0);
        let mut e = El::new("w:docGrid").a("w:type", t.1);
        if self.r.flip() {
            let n = num(&mut self.r, 0, 31680) as usize;
            g = g.line_pitch(n);
            e = e.a("w:linePitch", n);
        }
        if self.r.flip() {
            let n = num(&mut self.r, -20000, 20000) as isize;
            g = g.char_space(n);
            e = e.a("w:charSpace", n);
        }
        (g, e)
    }

    fn page_num_type(&mut self) -> (PageNumType, El) {
        let mut p = PageNumType::new();
        let mut e = El::new("w:pgNumType");
        let which = 1 + self.r.below(3);
        if which & 1 != 0 {
            let n = num(&mut self.r, 0, 31680) as u32;
            p = p.start(n);
            e = e.a("w:start", n);
        }
        if which & 2 != 0 {
            let a = self.attr();
            p = p.chap_style(&a);
            e = e.a("w:chapStyle", a);
        }
        (p, e)
    }

    fn section(&mut self) -> (Section, Vec<El>) {
        let mut s = Section::new();
        let mut els = vec![];
        let mut e = SecE::default();
        self.e.counts.sections += 1;
        for _ in 0..self.few() {
            if self.w(self.c.tables) {
                let (t, el) = self.table(Place::Body);
                s = s.add_table(t);
                els.push(el);
            } else if self.w(self.c.bookmarks) {
                let (id, name, el) = self.mark();
                s = s.add_bookmark_start(id, name);
                els.push(el);
                let (p, el) = self.para(Place::Section);
                s = s.add_paragraph(p).add_bookmark_end(id);
                els.push(el);
                els.push(El::new("w:bookmarkEnd").a("w:id", id));
            } else if self.w(self.c.comments) {
                let (c, id) = self.comment();
                s = s.add_comment_start(c);
                els.push(Self::cs(id));
                let (p, el) = self.para(Place::Section);
                s = s.add_paragraph(p).add_comment_end(id);
                els.push(el);
                els.extend(Self::ce(id));
            } else {
                let (p, el) = self.para(Place::Section);
                s = s.add_paragraph(p);
                els.push(el);
            }
        }
        if let Some((p, el)) = self.closing() {
            s = s.add_paragraph(p);
            els.push(el);
        }
        if self.r.flip() {
            let (w, h) = (num(&mut self.r, 0, 31680) as u32, num(&mut self.r, 0, 31680) as u32);
            s = s.page_size(PageSize::new().size(w, h));
            e.size = (w, h);
        }
        if !self.c.readable && self.r.one_in(3) {
            let o = *self.r.pick(ORIENT);
            s = s.page_orient(o.0);
            e.orient = Some(o.1);
        }
        if self.r.flip() {
            let m = self.page_margin();
            e.margin = m;
            s = s.page_margin(margin_obj(m));
        }
        if self.r.one_in(3) {
            let (g, x) = self.doc_grid();
            s = s.doc_grid(g);
            e.rest.push(x);
        }
        if self.r.one_in(4) {
            let d = self.r.pick(&["tbRl", "btLr"]).to_string();
            s = s.text_direction(d.clone());
            e.rest.push(v("w:textDirection", d));
        }
        if self.r.one_in(4) {
            s = s.title_pg();
            e.title = true;
        }
        if self.r.one_in(4) {
            let (p, x) = self.page_num_type();
            s = s.page_num_type(p);
            e.rest.push(x);
        }
        macro_rules! hf {
            ($f:ident, $m:ident, $t:expr, $title:expr) => {
                if self.w(self.c.headers) {
                    let (h, x) = self.$f($t);
                    s = s.$m(h);
                    e.rest.push(x);
                    if $title {
                        e.title = true;
                    }
                }
            };
        }
        hf!(header, header, "default", false);
        hf!(header, first_header, "first", true);
        hf!(header, even_header, "even", false);
        hf!(footer, footer, "default", false);
        hf!(footer, first_footer, "first", true);
        hf!(footer, even_footer, "even", false);
        self.even |= e.rest.iter().any(|x| x.name.ends_with("Reference") && x.attr("w:type") == Some("even"));
        els.push(El::new("w:p").k(El::new("w:pPr").k(e.el())));
        (s, els)
    }

    // ------------------------------------------------------------ table of contents

    pub fn toc(&mut self) -> (TableOfContents, Vec<El>) {
        self.e.counts.tocs += 1;
        let mut t = TableOfContents::new();
        let (i, s) = self.instr_toc();
        t.instr = i.clone();
        // the same through the methods of the table of contents
        if let (true, Some((a, b))) = (self.r.flip(), i.heading_styles_range) {
            t.instr.heading_styles_range = None;
            t = t.heading_styles_range(a, b);
        }
        if let (true, Some(id)) = (self.r.flip(), &i.tc_field_identifier) {
            t.instr.tc_field_identifier = None;
            t = t.tc_field_identifier(id.clone());
        }
        if self.r.flip() {
            for s in std::mem::take(&mut t.instr.styles_with_levels) {
                t = t.add_style_with_level(s);
            }
        }
        if i.hyperlink && self.r.flip() {
            t.instr.hyperlink = false;
            t = t.hyperlink();
        }
        let mut sdt = El::new("w:sdtPr");
        if self.r.flip() {
            let a = self.attr();
            t = t.alias(&a);
            sdt.push(v("w:alias", a));
        }
        let without = self.r.one_in(3);
        if without {
            t = t.without_sdt();
        }
        let mut els = vec![];
        for _ in 0..self.r.us(3) {
            if self.c.tables > 0 && self.r.one_in(3) {
                let (p, el) = self.table(Place::Toc);
                t = t.add_before_table(p);
                els.push(el);
            } else {
                let (p, el) = self.para(Place::Toc);
                t = t.add_before_paragraph(p);
                els.push(el);
            }
        }
        let mut after = vec![];
        for _ in 0..self.r.us(3) {
            if self.c.tables > 0 && self.r.one_in(3) {
                let (p, el) = self.table(Place::Toc);
                t = t.add_after_table(p);
                after.push(el);
            } else {
                let (p, el) = self.para(Place::Toc);
                t = t.add_after_paragraph(p);
                after.push(el);
            }
        }
        let items = if self.r.flip() { 0 } else { 1 + self.r.us(4) };
        let end = || El::new("w:r").k(fld("end", false));
        if items == 0 {
            let begin = |instr: &str| {
                El::new("w:r").k(fld("begin", true)).k(El::new(instr).t(&s)).k(fld("separate", false))
            };
            let mut p = El::new("w:p");
            if self.r.one_in(4) {
                let mut pp = ParagraphProperty::new();
                let mut x = El::new("w:pPr");
                if self.r.flip() {
                    let a = self.attr();
                    pp = pp.style(&a);
                    x.push(v("w:pStyle", a));
                }
                if self.r.flip() {
                    let n = self.r.us(9);
                    pp = pp.outline_lvl(n);
                    x.push(v("w:outlineLvl", n));
                }
                t = t.paragraph_property(pp);
                p.push(x);
            }
            if self.c.tracked > 0 && !self.c.readable && self.r.one_in(4) {
                let (a, d) = self.who();
                t = t.delete(&a, &d);
                els.push(p.k(El::new("w:del").a("w:author", a).a("w:date", d).k(begin("w:delInstrText"))));
            } else {
                els.push(p.k(begin("w:instrText")));
            }
            if after.is_empty() {
                els.push(El::new("w:p").k(end()));
            } else {
                for (i, mut x) in after.into_iter().enumerate() {
                    if i == 0 {
                        if x.name == "w:p" {
                            let at = x
                                .kids
                                .iter()
                                .position(|k| matches!(k, crate::xml::Node::E(e) if e.name == "w:pPr"))
                                .map(|i| i + 1)
                                .unwrap_or(0);
                            x.kids.insert(at, crate::xml::Node::E(end()));
                        } else {
                            els.push(El::new("w:p").k(end()));
                        }
                    }
                    els.push(x);
                }
            }
        } else {
            let dirty = self.r.flip();
            if dirty {
                t = t.dirty();
            }
            let mut c = El::new("w:sdtContent");
            let mut last = 0;
            for k in 0..items {
                let text = self.text();
                let key = self.m();
                let level = 1 + self.r.us(9);
                last = level;
                let mut it = TableOfContentsItem::new().text(&text).toc_key(&key).level(level);
                let mut page = "1".to_string();
                if self.r.flip() {
                    page = self.r.below(999).to_string();
                    it = it.page_ref(&page);
                }
                t = t.add_item(it);
                let mut p = El::new("w:p").k(
                    El::new("w:pPr").k(v("w:pStyle", format!("ToC{level}"))).k(
                        El::new("w:tabs").k(v("w:tab", "right").a("w:leader", "dot").a("w:pos", 80000)),
                    ),
                );
                if k == 0 {
                    p.push(
                        El::new("w:r")
                            .k(fld("begin", dirty))
                            .k(El::new("w:instrText").t(&s))
                            .k(fld("separate", false)),
                    );
                }
                let runs = vec![
                    El::new("w:r").k(t_el(&text)),
                    El::new("w:r").k(El::new("w:tab")),
                    El::new("w:r")
                        .k(fld("begin", false))
                        .k(El::new("w:instrText").t(format!("PAGEREF {key} \\h")))
                        .k(fld("separate", false))
                        .k(t_el(&page))
                        .k(fld("end", false)),
                ];
                if i.hyperlink {
                    p.push(El::new("w:hyperlink").a("w:anchor", &key).ks(runs));
                } else {
                    p = p.ks(runs);
                }
                c.push(p);
            }
            c.push(El::new("w:p").k(El::new("w:pPr").k(v("w:pStyle", format!("ToC{last}")))).k(end()));
            els.push(El::new("w:sdt").k(c));
            for (i, x) in after.into_iter().enumerate() {
                if i == 0 && x.name == "w:tbl" {
                    els.push(El::new("w:p"));
                }
                els.push(x);
            }
        }
        if without {
            (t, els)
        } else {
            (t, vec![El::new("w:sdt").k(sdt).k(El::new("w:sdtContent").ks(els))])
        }
    }

    // ------------------------------------------------------------ styles, numbering

    fn style(&mut self) -> Style {
        self.e.counts.styles += 1;
        let k = self.r.below(4);
        let (t, ts) = [
            (StyleType::Paragraph, "paragraph"),
            (StyleType::Character, "character"),
            (StyleType::Numbering, "numbering"),
            (StyleType::Table, "table"),
        ][k as usize];
        let id = format!("S{}{}", self.m(), if self.r.one_in(3) { self.attr() } else { String::new() });
        let mut s = Style::new(&id, t);
        let mut e = El::new("w:style").a("w:type", ts).a("w:styleId", &id);
        self.styles.push(id);
        if self.r.pct(80) {
            let a = self.attr();
            s = s.name(&a);
            e.push(v("w:name", a));
        } else {
            e.push(v("w:name", ""));
        }
        let mut rpr = El::new("w:rPr");
        let mut ppr = El::new("w:pPr");
        for p in self.rps() {
            if p.can(On::Style) {
                s = p.style(s);
                for x in p.els() {
                    rpr.push(x);
                }
            }
        }
        for p in self.pps() {
            if p.can_style() {
                s = p.style(s);
                ppr.push(p.el());
            }
        }
        e.push(rpr);
        e.push(ppr);
        if self.r.one_in(3) && !self.styles.is_empty() {
            let b = self.r.pick(&self.styles).clone();
            s = s.based_on(&b);
            e.push(v("w:basedOn", b));
        }
        if !self.c.readable && self.r.one_in(3) {
            let b = self.r.pick(&self.styles).clone();
            s = s.next(&b);
            e.push(v("w:next", b));
        }
        if self.r.one_in(3) {
            let b = self.r.pick(&self.styles).clone();
            s = s.link(&b);
            e.push(v("w:link", b));
        }
        if self.c.readable || self.r.pct(70) {
            e.push(El::new("w:qFormat"));
        } else {
            s = s.q_format(false);
        }
        if !self.c.readable {
            if self.r.one_in(4) {
                let n = num(&mut self.r, 0, 99) as usize;
                s = s.ui_priority(n);
                e.push(v("w:uiPriority", n));
            }
            if self.r.one_in(4) {
                s = s.semi_hidden();
                e.push(El::new("w:semiHidden"));
            }
            if self.r.one_in(4) {
                s = s.unhide_when_used();
                e.push(El::new("w:unhideWhenUsed"));
            }
        }
        if k == 3 {
            let (bordered, ops, x) = self.table_ops(true);
            if bordered && self.r.flip() {
                for o in ops {
                    s = o.of_style(s);
                }
            } else {
                let o = if bordered { TableProperty::new() } else { TableProperty::without_borders() };
                s = s.table_property(ops.into_iter().fold(o, |o, x| x.property(o)));
            }
            e.push(x);
            let (p, x) = self.cell_property();
            s = s.table_cell_property(p);
            e.push(x);
        }
        self.e.styles.push(e);
        s
    }

    fn level(&mut self, n: usize) -> (Level, El) {
        self.e.counts.levels += 1;
        let start = num(&mut self.r, 0, 32767) as usize;
        let fmt = self.r.pick(&["decimal", "bullet", "lowerRoman", "upperLetter", "none", "chicago"]).to_string();
        let text = if self.r.flip() { format!("%{}.", n + 1) } else { self.attr() };
        let jc = self.r.pick(&["left", "center", "right", "start", "end"]).to_string();
        let mut l = Level::new(n, Start::new(start), NumberFormat::new(&fmt), LevelText::new(&text), LevelJc::new(&jc));
        let mut e = El::new("w:lvl")
            .a("w:ilvl", n)
            .k(v("w:start", start))
            .k(v("w:numFmt", fmt))
            .k(v("w:lvlText", text))
            .k(v("w:lvlJc", jc));
        let mut ppr = El::new("w:pPr");
        if self.r.flip() {
            let i = Ind::gen(&mut self.r, false);
            l = l.indent(i.left, i.sp(), i.right, i.chars);
            ppr.push(i.el());
        }
        let mut rpr = El::new("w:rPr");
        for p in self.rps() {
            if p.can(On::Level) {
                l = p.level(l);
                for x in p.els() {
                    rpr.push(x);
                }
            }
        }
        e.push(ppr);
        e.push(rpr);
        if self.r.one_in(3) {
            let a = self.attr();
            l = l.paragraph_style(&a);
            e.push(v("w:pStyle", a));
        }
        if self.r.one_in(3) {
            let s = self.r.pick(&[
                (LevelSuffixType::Nothing, "nothing"),
                (LevelSuffixType::Space, "space"),
                (LevelSuffixType::Tab, "tab"),
            ]).clone();
            l = l.suffix(s.0);
            if s.1 != "tab" {
                e.push(v("w:suff", s.1));
            }
        }
        if self.r.one_in(3) {
            let k = self.r.below(9) as u32;
            l = l.level_restart(k);
            e.push(v("w:lvlRestart", k));
        }
        if self.r.one_in(3) {
            l = l.is_lgl();
            e.push(El::new("w:isLgl"));
        }
        (l, e)
    }

    // ------------------------------------------------------------ whole document

    fn blocks(&mut self) -> Vec<(Block, Vec<El>)> {
        let max = self.c.max_blocks;
        let n = match self.r.below(60) {
            0 => max * 8,
            1..=3 => max * 3,
            _ => 1 + self.r.us(max),
        };
        let mut out = vec![];
        for _ in 0..n {
            if self.w(self.c.tables) {
                let (t, e) = self.table(Place::Body);
                out.push((Block::T(t), vec![e]));
            } else if self.w(self.c.sdt) {
                let (t, e) = self.sdt_block(Place::Sdt);
                out.push((Block::S(t), vec![e]));
            } else if self.w(self.c.toc) {
                let (t, e) = self.toc();
                out.push((Block::Toc(t), e));
            } else if self.w(self.c.sections) {
                let (t, e) = self.section();
                out.push((Block::Sec(t), e));
            } else if self.w(self.c.bookmarks / 2) {
                let (id, name, e) = self.mark();
                out.push((Block::BmS(id, name), vec![e]));
                let (p, e) = self.para(Place::Body);
                out.push((Block::P(p), vec![e]));
                out.push((Block::BmE(id), vec![El::new("w:bookmarkEnd").a("w:id", id)]));
            } else if self.w(self.c.comments / 2) {
                let (c, id) = self.comment();
                out.push((Block::CmS(c), vec![Self::cs(id)]));
                let (p, e) = self.para(Place::Body);
                out.push((Block::P(p), vec![e]));
                out.push((Block::CmE(id), Self::ce(id)));
            } else {
                let (mut p, mut e) = self.para(Place::Body);
                if self.w(self.c.sections / 2) {
                    let (mut s, mut x) = self.section_property();
                    macro_rules! hf {
                        ($f:ident, $m:ident, $t:expr, $title:expr) => {
                            if self.w(self.c.headers) {
                                let (h, y) = self.$f($t);
                                s = s.$m(h, "");
                                x.rest.push(y);
                                if $title {
                                    x.title = true;
                                }
                            }
                        };
                    }
                    hf!(header, header, "default", false);
                    hf!(header, first_header, "first", true);
                    hf!(header, first_header_without_title_pg, "first", false);
                    hf!(header, even_header, "even", false);
                    hf!(footer, footer, "default", false);
                    hf!(footer, first_footer, "first", true);
                    hf!(footer, first_footer_without_title_pg, "first", false);
                    hf!(footer, even_footer, "even", false);
                    x.dedup();
                    p = p.section_property(s);
                    if let Some(crate::xml::Node::E(ppr)) = e.kids.first_mut() {
                        ppr.push(x.el());
                    }
                }
                out.push((Block::P(p), vec![e]));
            }
        }
        if let Some((p, e)) = self.closing() {
            out.push((Block::P(p), vec![e]));
        }
        if let Some(n) = self.nums.first() {
            // numberings nothing refers to are not part of the package
            let x = PP::Num(*n, 0);
            out.push((
                Block::P(x.para(Paragraph::new())),
                vec![El::new("w:p").k(El::new("w:pPr").k(x.el()))],
            ));
        }
        out
    }

    pub fn docx(&mut self) -> Docx {
        let mut d = Docx::new();
        // styles and numberings first: the content refers to them
        if self.w(self.c.styles) && self.r.one_in(4) {
            let mut all = Styles::new();
            for _ in 0..self.few() {
                let s = self.style();
                all = all.add_style(s);
            }
            let mut rpr = El::new("w:rPr");
            if self.r.flip() {
                let n = num(&mut self.r, 0, 3276) as usize;
                all = all.default_size(n);
                rpr.push(v("w:sz", n));
                rpr.push(v("w:szCs", n));
            }
            if self.r.flip() {
                let m = self.m();
                let f = gen_fonts(&mut self.r, &m);
                all = all.default_fonts(fonts_obj(&f));
                rpr.push(fonts_el(&f));
            }
            self.e.defaults.push(rpr);
            if self.r.flip() {
                let s = Spc::gen(&mut self.r);
                all = all.default_line_spacing(s.obj());
                self.e.defaults.push(El::new("w:pPr").k(s.el()));
            }
            d = d.styles(all);
        } else if self.w(self.c.styles) {
            for _ in 0..self.few() {
                let s = self.style();
                d = d.add_style(s);
            }
            let mut rpr = El::new("w:rPr");
            if self.r.one_in(3) {
                let n = num(&mut self.r, 0, 3276) as usize;
                d = d.default_size(n);
                rpr.push(v("w:sz", n));
                rpr.push(v("w:szCs", n));
            }
            if self.r.one_in(3) {
                let n = num(&mut self.r, -1000, 1000) as i32;
                d = d.default_spacing(n);
                rpr.push(v("w:spacing", n));
            }
            if self.r.one_in(3) {
                let m = self.m();
                let f = gen_fonts(&mut self.r, &m);
                d = d.default_fonts(fonts_obj(&f));
                rpr.push(fonts_el(&f));
            }
            self.e.defaults.push(rpr);
            if self.r.one_in(3) {
                let s = Spc::gen(&mut self.r);
                d = d.default_line_spacing(s.obj());
                self.e.defaults.push(El::new("w:pPr").k(s.el()));
            }
        }
        if self.w(self.c.numbering) {
            let whole = self.r.one_in(4);
            let mut id = 2;
            for _ in 0..self.few() {
                id += self.r.us(4);
                let mut a = AbstractNumbering::new(id);
                let mut e = El::new("w:abstractNum").a("w:abstractNumId", id);
                if self.r.one_in(4) {
                    let s = self.attr();
                    a = a.style_link(&s);
                    e.push(v("w:styleLink", s));
                }
                if self.r.one_in(4) {
                    let s = self.attr();
                    a = a.num_style_link(&s);
                    e.push(v("w:numStyleLink", s));
                }
                for n in 0..self.r.us(9) {
                    let (l, x) = self.level(n);
                    a = a.add_level(l);
                    e.push(x);
                }
                d = if whole {
                    let n = d.numberings.clone().add_abstract_numbering(a);
                    d.numberings(n)
                } else {
                    d.add_abstract_numbering(a)
                };
                self.e.abstracts.push(e);
                for _ in 0..1 + self.r.us(2) {
                    let nid = 2 + self.nums.len() + self.r.us(3) * 100 * (1 + self.nums.len());
                    if self.nums.contains(&nid) {
                        continue;
                    }
                    let mut n = Numbering::new(nid, id);
                    let mut e = El::new("w:num").a("w:numId", nid).k(v("w:abstractNumId", id));
                    let mut overrides = vec![];
                    for l in 0..self.r.us(3) {
                        let mut o = LevelOverride::new(l);
                        let mut x = El::new("w:lvlOverride").a("w:ilvl", l);
                        if self.r.flip() {
                            let k = num(&mut self.r, 0, 32767) as usize;
                            o = o.start(k);
                            x.push(v("w:startOverride", k));
                        }
                        if self.r.flip() || x.kids.is_empty() {
                            let (lv, y) = self.level(l);
                            o = o.level(lv);
                            x.push(y);
                        }
                        overrides.push(o);
                        e.push(x);
                    }
                    n = if whole { n.overrides(overrides) } else { overrides.into_iter().fold(n, |n, o| n.add_override(o)) };
                    d = if whole {
                        let all = d.numberings.clone().add_numbering(n);
                        d.numberings(all)
                    } else {
                        d.add_numbering(n)
                    };
                    self.e.nums.push(e);
                    self.nums.push(nid);
                }
                id += 1;
            }
        }
        if self.w(self.c.settings) && self.r.flip() {
            let mut s = Settings::new();
            if self.r.flip() {
                let (c, x) = *self.r.pick(&[
                    (CharacterSpacingValues::DoNotCompress, "doNotCompress"),
                    (CharacterSpacingValues::CompressPunctuation, "compressPunctuation"),
                    (CharacterSpacingValues::CompressPunctuationAndJapaneseKana, "compressPunctuationAndJapaneseKana"),
                ]);
                s = s.character_spacing_control(c);
                self.e.settings.push(v("w:characterSpacingControl", x));
            }
            if self.r.flip() {
                s = s.adjust_line_height_in_table();
                self.e.settings.push(El::new("w:adjustLineHeightInTable"));
            }
            if self.r.one_in(4) {
                s = s.even_and_odd_headers();
                self.even = true;
            }
            d = d.settings(s);
            self.e.counts.settings += 1;
        }
        let blocks = self.blocks();
        let mut sect = SecE::default();
        let direct = !blocks.iter().any(|(b, _)| matches!(b, Block::CmS(_) | Block::CmE(_))) && self.r.flip();
        let mut doc = Document::new();
        for (b, els) in blocks {
            for e in els {
                self.e.body.push(e);
            }
            if direct {
                d = match b {
                    Block::P(p) => d.add_paragraph(p),
                    Block::T(t) => d.add_table(t),
                    Block::S(t) => d.add_structured_data_tag(t),
                    Block::Toc(t) => d.add_table_of_contents(t),
                    Block::BmS(i, n) => d.add_bookmark_start(i, n),
                    Block::BmE(i) => d.add_bookmark_end(i),
                    Block::Sec(s) => d.add_section(s),
                    _ => unreachable!(),
                };
            } else {
                doc = match b {
                    Block::P(p) => doc.add_paragraph(p),
                    Block::T(t) => doc.add_table(t),
                    Block::S(t) => doc.add_structured_data_tag(t),
                    Block::Toc(t) => doc.add_table_of_contents(t),
                    Block::BmS(i, n) => doc.add_bookmark_start(i, n),
                    Block::BmE(i) => doc.add_bookmark_end(i),
                    Block::CmS(c) => doc.add_comment_start(c),
                    Block::CmE(i) => doc.add_comment_end(i),
                    Block::Sec(s) => doc.add_section(s),
                };
            }
        }
        if !direct {
            if self.w(self.c.sections.max(self.c.headers).min(30)) {
                let (p, x) = self.section_property();
                doc = doc.default_section_property(p);
                sect = x;
                if self.r.flip() {
                    let n = num(&mut self.r, 1, 45) as usize;
                    doc = doc.columns(n);
                    sect.cols.1 = n;
                }
                if self.r.flip() {
                    let (p, x) = self.page_num_type();
                    doc = doc.page_num_type(p);
                    sect.rest.retain(|x| x.name != "w:pgNumType");
                    sect.rest.push(x);
                }
                if self.r.flip() {
                    let (g, x) = self.doc_grid();
                    doc = doc.doc_grid(g);
                    sect.rest.retain(|x| x.name != "w:docGrid");
                    sect.rest.push(x);
                }
                if self.r.flip() {
                    let t = self.r.pick(&["tbRl", "btLr", "lrTbV", "tbRlV", "tbLrV"]).to_string();
                    doc = doc.text_direction(t.clone());
                    sect.rest.retain(|x| x.name != "w:textDirection");
                    sect.rest.push(v("w:textDirection", t));
                }
                if self.r.flip() {
                    let m = self.page_margin();
                    doc = doc.page_margin(margin_obj(m));
                    sect.margin = m;
                }
                macro_rules! hf {
                    ($f:ident, $m:ident, $t:expr) => {
                        if self.w(self.c.headers) {
                            let (h, x) = self.$f($t);
                            let id = format!("own{}", self.m());
                            doc = doc.$m(h, &id);
                            sect.rest.push(x);
                            sect.title |= $t == "first";
                        }
                    };
                }
                hf!(header, header, "default");
                hf!(header, first_header, "first");
                hf!(header, even_header, "even");
                hf!(footer, footer, "default");
                hf!(footer, first_footer, "first");
                hf!(footer, even_footer, "even");
            }
            d = d.document(doc);
        }
        if self.c.sections > 0 || self.c.headers > 0 || self.c.settings > 0 {
            for _ in 0..2 {
                if self.r.one_in(5) {
                    let (w, h) = (num(&mut self.r, 0, 31680) as u32, num(&mut self.r, 0, 31680) as u32);
                    d = d.page_size(w, h);
                    sect.size = (w, h);
                }
                if !self.c.readable && self.r.one_in(5) {
                    let o = *self.r.pick(ORIENT);
                    d = d.page_orient(o.0);
                    sect.orient = Some(o.1);
                }
            }
            if self.r.one_in(3) {
                let m = self.page_margin();
                d = d.page_margin(margin_obj(m));
                sect.margin = m;
            }
            if self.r.one_in(4) {
                let (p, x) = self.page_num_type();
                d = d.page_num_type(p);
                sect.rest.retain(|x| x.name != "w:pgNumType");
                sect.rest.push(x);
            }
            if self.r.one_in(4) {
                d = d.title_pg();
                sect.title = true;
            }
            macro_rules! hf {
                ($f:ident, $m:ident, $t:expr, $title:expr) => {
                    if self.w(self.c.headers) {
                        let (h, x) = self.$f($t);
                        d = d.$m(h);
                        sect.rest.push(x);
                        if $title {
                            sect.title = true;
                        }
                    }
                };
            }
            hf!(header, header, "default", false);
            hf!(header, first_header, "first", true);
            hf!(footer, footer, "default", false);
            hf!(footer, first_footer, "first", true);
            let before = sect.rest.len();
            hf!(header, even_header, "even", false);
            hf!(footer, even_footer, "even", false);
            self.even |= sect.rest.len() > before;
        }
        let at = self.even;
        if at {
            self.e.settings.push(El::new("w:evenAndOddHeaders"));
        }
        sect.dedup();
        self.e.body.push(sect.el());
        if self.w(self.c.settings) {
            if self.r.flip() {
                let n = num(&mut self.r, 0, 31680) as usize;
                d = d.default_tab_stop(n);
                self.e.settings.push(v("w:defaultTabStop", n));
                self.e.counts.settings += 1;
            } else {
                self.e.settings.push(v("w:defaultTabStop", 840));
            }
            if self.r.flip() {
                let id = format!("{:08X}-0000-4000-8000-{:012X}", self.r.next() as u32, self.r.below(1 << 48));
                d = d.doc_id(&id);
                self.e.settings.push(El::new("w15:docId").a("w15:val", format!("{{{id}}}")));
                self.e.counts.settings += 1;
            }
            let mut vars = El::new("w:docVars");
            for _ in 0..self.r.us(4) {
                let (a, b) = (self.attr(), self.attr());
                d = d.add_doc_var(&a, &b);
                vars.push(v("w:docVar", b).a("w:name", a));
                self.e.counts.settings += 1;
            }
            self.e.settings.push(vars);
        } else {
            self.e.settings.push(v("w:defaultTabStop", 840));
        }
        let (mut created, mut modified) = ("1970-01-01T00:00:00Z".to_string(), "1970-01-01T00:00:00Z".to_string());
        if self.w(self.c.custom) {
            if self.r.flip() {
                created = self.date();
                d = d.created_at(&created);
            }
            if self.r.flip() {
                modified = self.date();
                d = d.updated_at(&modified);
            }
            // some documents have so many of them that numbers get longer
            let many = |r: &mut Rng, n: usize| if r.one_in(20) { 8 + r.us(9) } else { r.us(n) };
            for _ in 0..many(&mut self.r, 5) {
                let (a, b) = (format!("{}{}", self.attr(), self.m()), self.attr());
                d = d.custom_property(&a, &b);
                self.e.props.push((a, b));
                self.e.counts.items += 1;
            }
            for _ in 0..many(&mut self.r, 3) {
                let id = format!("{:08X}-0000-4000-8000-{:012X}", self.r.next() as u32, self.r.below(1 << 48));
                let x = self.custom_xml(0);
                d = d.add_custom_item(&id, &crate::xml::write(&x, self.r.flip()));
                self.e.items.push((id, x));
                self.e.counts.items += 1;
            }
            let n = many(&mut self.r, 3);
            for _ in 0..n {
                let id = format!("{:08x}-0000-4000-8000-{:012x}", self.r.next() as u32, self.r.below(1 << 48));
                let (a, b, c, t) = (self.attr(), self.attr(), self.attr(), self.attr());
                let mut x = WebExtension::new(&id, &a, &b, &c, &t);
                let mut props = El::new("we:properties");
                for _ in 0..self.r.us(3) {
                    let (n, val) = (self.attr(), self.attr());
                    x = x.property(&n, &val);
                    props.push(
                        El::new("we:property").a("name", n).a("value", format!("\"{}\"", val.replace('"', "\\\""))),
                    );
                }
                d = d.web_extension(x);
                self.e.webext.push(
                    El::new("we:webextension")
                        .a("id", format!("{{{id}}}"))
                        .k(El::new("we:reference").a("id", a).a("version", b).a("store", c).a("storeType", t))
                        .k(props),
                );
                self.e.counts.items += 1;
            }
            if n > 0 && self.r.pct(80) {
                d = d.taskpanes();
                self.e.panes = true;
            }
        }
        self.e.core = vec![
            El::new("dcterms:created").a("xsi:type", "dcterms:W3CDTF").t(created),
            El::new("dcterms:modified").a("xsi:type", "dcterms:W3CDTF").t(modified),
        ];
        d
    }

    fn custom_xml(&mut self, depth: usize) -> El {
        let space = |r: &mut Rng| if r.one_in(4) { *r.pick(&["a:", "v:", "wp:", "pic:"]) } else { "" };
        let name = format!("{}n{}", space(&mut self.r), self.m());
        let mut e = El::new(&name);
        for _ in 0..self.r.us(3) {
            let n = format!("{}a{}", space(&mut self.r), self.m());
            let t = self.attr();
            e = e.a(&n, t);
        }
        if depth < 4 && self.r.flip() {
            for _ in 0..self.few() {
                let k = self.custom_xml(depth + 1);
                e.push(k);
            }
        } else if self.r.pct(80) {
            let t = self.attr();
            let t = t.trim();
            if !t.is_empty() {
                e = e.t(t);
            }
        }
        e
    }
}

/// A run with a footnote reference gets the style of one.
fn note_style(run: &mut El) {
    if let Some(crate::xml::Node::E(rpr)) = run.kids.first_mut() {
        rpr.kids.retain(|k| !matches!(k, crate::xml::Node::E(e) if e.name == "w:rStyle"));
        rpr.push(v("w:rStyle", "FootnoteReference"));
    }
}

fn page_field(s: &str) -> El {
    El::new("w:r")
        .k(fld("begin", false))
        .k(El::new("w:instrText").t(s))
        .k(fld("separate", false))
        .k(t_el("1"))
        .k(fld("end", false))
}

pub const TBPOS: &[&str] = &["left", "right", "top", "bottom", "insideH", "insideV"];
pub enum TOp {
    Width(usize, WidthType),
    Align(TableAlignmentType),
    Borders(TableBorders),
    Border(TableBorder),
    Clear(usize),
    ClearAll,
    Margins(TableCellMargins),
    Margin(usize, usize, WidthType),
    Indent(i32),
    Style(String),
    Layout(TableLayoutType),
    Position(TablePositionProperty),
}

impl TOp {
    fn property(self, o: TableProperty) -> TableProperty {
        match self {
            TOp::Width(n, t) => o.width(n, t),
            TOp::Align(a) => o.align(a),
            TOp::Borders(b) => o.set_borders(b),
            TOp::Border(b) => o.set_border(b),
            TOp::Clear(i) => o.clear_border(tbpos(i)),
            TOp::ClearAll => o.clear_all_border(),
            TOp::Margins(m) => o.set_margins(m),
            TOp::Margin(0, n, t) => o.cell_margin_top(n, t),
            TOp::Margin(1, n, t) => o.cell_margin_left(n, t),
            TOp::Margin(2, n, t) => o.cell_margin_bottom(n, t),
            TOp::Margin(_, n, t) => o.cell_margin_right(n, t),
            TOp::Indent(n) => o.indent(n),
            TOp::Style(s) => o.style(s),
            TOp::Layout(l) => o.layout(l),
            TOp::Position(p) => o.position(p),
        }
    }

    fn table(self, mut o: Table) -> Table {
        match self {
            TOp::Width(n, t) => o.width(n, t),
            TOp::Align(a) => o.align(a),
            TOp::Borders(b) => o.set_borders(b),
            TOp::Border(b) => o.set_border(b),
            TOp::Clear(i) => o.clear_border(tbpos(i)),
            TOp::ClearAll => o.clear_all_border(),
            TOp::Margins(m) => o.margins(m),
            TOp::Margin(..) => {
                o.property = self.property(o.property);
                o
            }
            TOp::Indent(n) => o.indent(n),
            TOp::Style(s) => o.style(s),
            TOp::Layout(l) => o.layout(l),
            TOp::Position(p) => o.position(p),
        }
    }

    fn of_style(self, mut o: Style) -> Style {
        match self {
            TOp::Width(n, t) => o.width(n, t),
            TOp::Align(a) => o.table_align(a),
            TOp::Borders(b) => o.set_borders(b),
            TOp::Border(b) => o.set_border(b),
            TOp::Clear(i) => o.clear_border(tbpos(i)),
            TOp::ClearAll => o.clear_all_border(),
            TOp::Margins(m) => o.margins(m),
            TOp::Margin(..) | TOp::Position(_) => {
                o.table_property = self.property(o.table_property);
                o
            }
            TOp::Indent(n) => o.table_indent(n),
            TOp::Style(s) => o.style(s),
            TOp::Layout(l) => o.layout(l),
        }
    }
}

pub enum COp {
    Width(usize, WidthType),
    Merge(VMergeType),
    Align(VAlignType),
    Dir(TextDirectionType),
    Span(usize),
    Shading(Shading),
    Borders(TableCellBorders),
    Border(TableCellBorder),
    Clear(usize),
    ClearAll,
    Margins(CellMargins),
    Margin(usize, usize, WidthType),
}

impl COp {
    fn property(self, o: TableCellProperty) -> TableCellProperty {
        match self {
            COp::Width(n, t) => o.width(n, t),
            COp::Merge(m) => o.vertical_merge(m),
            COp::Align(a) => o.vertical_align(a),
            COp::Dir(d) => o.text_direction(d),
            COp::Span(n) => o.grid_span(n),
            COp::Shading(s) => o.shading(s),
            COp::Borders(b) => o.set_borders(b),
            COp::Border(b) => o.set_border(b),
            COp::Clear(i) => o.clear_border(cbpos(i)),
            COp::ClearAll => o.clear_all_border(),
            COp::Margins(m) => o.margins(m),
            COp::Margin(0, n, t) => o.margin_top(n, t),
            COp::Margin(1, n, t) => o.margin_left(n, t),
            COp::Margin(2, n, t) => o.margin_bottom(n, t),
            COp::Margin(_, n, t) => o.margin_right(n, t),
        }
    }

    fn cell(self, mut o: TableCell) -> TableCell {
        match self {
            COp::Width(n, t) => o.width(n, t),
            COp::Merge(m) => o.vertical_merge(m),
            COp::Align(a) => o.vertical_align(a),
            COp::Dir(d) => o.text_direction(d),
            COp::Span(n) => o.grid_span(n),
            COp::Shading(s) => o.shading(s),
            COp::Borders(b) => o.set_borders(b),
            COp::Border(b) => o.set_border(b),
            COp::Clear(i) => o.clear_border(cbpos(i)),
            COp::ClearAll => o.clear_all_border(),
            COp::Margins(_) | COp::Margin(..) => {
                o.property = self.property(o.property);
                o
            }
        }
    }
}

fn tbpos(i: usize) -> TableBorderPosition {
    match i {
        0 => TableBorderPosition::Left,
        1 => TableBorderPosition::Right,
        2 => TableBorderPosition::Top,
        3 => TableBorderPosition::Bottom,
        4 => TableBorderPosition::InsideH,
        _ => TableBorderPosition::InsideV,
    }
}
pub const CBPOS: &[&str] = &["left", "right", "top", "bottom", "insideH", "insideV", "tl2br", "tr2bl"];
fn cbpos(i: usize) -> TableCellBorderPosition {
    match i {
        0 => TableCellBorderPosition::Left,
        1 => TableCellBorderPosition::Right,
        2 => TableCellBorderPosition::Top,
        3 => TableCellBorderPosition::Bottom,
        4 => TableCellBorderPosition::InsideH,
        5 => TableCellBorderPosition::InsideV,
        6 => TableCellBorderPosition::Tl2br,
        _ => TableCellBorderPosition::Tr2bl,
    }
}
fn border_el(pos: &str, t: usize, size: usize, color: &str) -> El {
    v(&format!("w:{pos}"), BORDER[t].1).a("w:sz", size).a("w:space", 0).a("w:color", color)
}

fn margin_obj(m: [i32; 7]) -> PageMargin {
    PageMargin::new()
        .top(m[0])
        .right(m[1])
        .bottom(m[2])
        .left(m[3])
        .header(m[4])
        .footer(m[5])
        .gutter(m[6])
}

/// What a `w:sectPr` has to say.
pub struct SecE {
    pub size: (u32, u32),
    pub orient: Option<&'static str>,
    pub margin: [i32; 7],
    pub cols: (usize, usize),
    pub title: bool,
    pub rest: Vec<El>,
}

impl Default for SecE {
    fn default() -> SecE {
        SecE {
            size: (11906, 16838),
            orient: None,
            margin: [1985, 1701, 1701, 1701, 851, 992, 0],
            cols: (425, 1),
            title: false,
            rest: vec![],
        }
    }
}

impl SecE {
    /// The last reference of each type counts.
    fn dedup(&mut self) {
        let mut seen = vec![];
        let mut out = vec![];
        for x in std::mem::take(&mut self.rest).into_iter().rev() {
            let k = (x.name.clone(), x.attr("w:type").map(String::from));
            if x.name.ends_with("Reference") && seen.contains(&k) {
                continue;
            }
            seen.push(k);
            out.push(x);
        }
        out.reverse();
        self.rest = out;
    }
    pub fn el(mut self) -> El {
        let m = self.margin;
        let mut e = El::new("w:sectPr")
            .k(El::new("w:pgSz").a("w:w", self.size.0).a("w:h", self.size.1).opt("w:orient", self.orient))
            .k(El::new("w:pgMar")
                .a("w:top", m[0])
                .a("w:right", m[1])
                .a("w:bottom", m[2])
                .a("w:left", m[3])
                .a("w:header", m[4])
                .a("w:footer", m[5])
                .a("w:gutter", m[6]))
            .k(El::new("w:cols").a("w:space", self.cols.0).a("w:num", self.cols.1));
        if self.title {
            e.push(El::new("w:titlePg"));
        }
        for x in std::mem::take(&mut self.rest) {
            e.push(x);
        }
        e
    }
}
