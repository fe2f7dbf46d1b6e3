//! Formatting: every setter of the API next to the XML it stands for.

use crate::util::Rng;
use crate::xml::El;
use docx_rs::*;

pub fn v(name: &str, val: impl ToString) -> El {
    El::new(name).a("w:val", val)
}

macro_rules! enum_list {
    ($name:ident, $t:ident, [$($v:ident => $s:expr),* $(,)?]) => {
        pub const $name: &[($t, &str)] = &[$(($t::$v, $s)),*];
    };
}

enum_list!(ALIGN, AlignmentType, [Center => "center", Left => "left", Right => "right", Both => "both",
    Justified => "justified", Distribute => "distribute", Start => "start", End => "end"]);
enum_list!(BORDER, BorderType, [Nil => "nil", None => "none", Single => "single", Thick => "thick", Double => "double",
    Dotted => "dotted", Dashed => "dashed", DotDash => "dotDash", DotDotDash => "dotDotDash", Triple => "triple",
    ThinThickSmallGap => "thinThickSmallGap", ThickThinSmallGap => "thickThinSmallGap",
    ThinThickThinSmallGap => "thinThickThinSmallGap", ThinThickMediumGap => "thinThickMediumGap",
    ThickThinMediumGap => "thickThinMediumGap", ThinThickThinMediumGap => "thinThickThinMediumGap",
    ThinThickLargeGap => "thinThickLargeGap", ThickThinLargeGap => "thickThinLargeGap",
    ThinThickThinLargeGap => "thinThickThinLargeGap", Wave => "wave", DoubleWave => "doubleWave",
    DashSmallGap => "dashSmallGap", DashDotStroked => "dashDotStroked", ThreeDEmboss => "threeDEmboss",
    ThreeDEngrave => "threeDEngrave", Outset => "outset", Inset => "inset", Apples => "apples",
    ArchedScallops => "archedScallops", BabyPacifier => "babyPacifier", BabyRattle => "babyRattle"]);
enum_list!(SHD, ShdType, [Nil => "nil", Clear => "clear", Solid => "solid", HorzStripe => "horzStripe",
    VertStripe => "vertStripe", ReverseDiagStripe => "reverseDiagStripe", DiagStripe => "diagStripe",
    HorzCross => "horzCross", DiagCross => "diagCross", ThinHorzStripe => "thinHorzStripe",
    ThinVertStripe => "thinVertStripe", ThinReverseDiagStripe => "thinReverseDiagStripe",
    ThinDiagStripe => "thinDiagStripe", ThinHorzCross => "thinHorzCross", ThinDiagCross => "thinDiagCross",
    Pct5 => "pct5", Pct10 => "pct10", Pct12 => "pct12", Pct15 => "pct15", Pct20 => "pct20", Pct25 => "pct25",
    Pct30 => "pct30", Pct35 => "pct35", Pct37 => "pct37", Pct40 => "pct40", Pct45 => "pct45", Pct50 => "pct50",
    Pct55 => "pct55", Pct60 => "pct60", Pct62 => "pct62", Pct65 => "pct65", Pct70 => "pct70", Pct75 => "pct75",
    Pct80 => "pct80", Pct85 => "pct85", Pct87 => "pct87", Pct90 => "pct90", Pct95 => "pct95"]);
enum_list!(THEME, ThemeColor, [Dark1 => "dark1", Light1 => "light1", Dark2 => "dark2", Light2 => "light2",
    Accent1 => "accent1", Accent2 => "accent2", Accent3 => "accent3", Accent4 => "accent4", Accent5 => "accent5",
    Accent6 => "accent6", Hyperlink => "hyperlink", FollowedHyperlink => "followedHyperlink", None => "none",
    Background1 => "background1", Text1 => "text1", Background2 => "background2", Text2 => "text2"]);
enum_list!(VERT, VertAlignType, [SuperScript => "superscript", SubScript => "subscript", Baseline => "baseline"]);
enum_list!(VALIGN, VAlignType, [Top => "top", Center => "center", Bottom => "bottom"]);
enum_list!(VMERGE, VMergeType, [Restart => "restart", Continue => "continue"]);
enum_list!(WIDTH, WidthType, [Dxa => "dxa", Auto => "auto", Pct => "pct", Nil => "nil"]);
enum_list!(TDIR, TextDirectionType, [Lr => "lr", LrV => "lrV", Rl => "rl", RlV => "rlV", Tb => "tb", TbV => "tbV",
    TbRlV => "tbRlV", TbRl => "tbRl", BtLr => "btLr", LrTbV => "lrTbV"]);
enum_list!(TEXTALIGN, TextAlignmentType, [Auto => "auto", Baseline => "baseline", Bottom => "bottom",
    Center => "center", Top => "top"]);
enum_list!(TABV, TabValueType, [Bar => "bar", Center => "center", Clear => "clear", Decimal => "decimal", End => "end",
    Right => "right", Num => "num", Start => "start", Left => "left"]);
enum_list!(LEADER, TabLeaderType, [Dot => "dot", Heavy => "heavy", Hyphen => "hyphen", MiddleDot => "middleDot",
    None => "none", Underscore => "underscore"]);
enum_list!(PTALIGN, PositionalTabAlignmentType, [Center => "center", Left => "left", Right => "right"]);
enum_list!(PTREL, PositionalTabRelativeTo, [Indent => "indent", Margin => "margin"]);
enum_list!(LINERULE, LineSpacingType, [Auto => "auto", AtLeast => "atLeast", Exact => "exact"]);
enum_list!(HRULE, HeightRule, [Auto => "auto", AtLeast => "atLeast", Exact => "exact"]);
enum_list!(TALIGN, TableAlignmentType, [Center => "center", Left => "left", Right => "right"]);
enum_list!(TLAYOUT, TableLayoutType, [Fixed => "fixed", Autofit => "autofit"]);
enum_list!(ORIENT, PageOrientationType, [Landscape => "landscape", Portrait => "portrait"]);
enum_list!(GRIDTYPE, DocGridType, [Default => "default", Lines => "lines", LinesAndChars => "linesAndChars",
    SnapToChars => "snapToChars"]);
enum_list!(SUFFIX, LevelSuffixType, [Nothing => "nothing", Space => "space", Tab => "tab"]);
enum_list!(SECTYPE, SectionType, [NextPage => "nextPage", NextColumn => "nextColumn", Continuous => "continuous",
    EvenPage => "evenPage", OddPage => "oddPage"]);
enum_list!(RELH, RelativeFromHType, [Character => "character", Column => "column", InsideMargin => "insideMargin",
    LeftMargin => "leftMargin", Margin => "margin", OutsizeMargin => "outsideMargin", Page => "page",
    RightMargin => "rightMargin"]);
enum_list!(RELV, RelativeFromVType, [BottomMargin => "bottomMargin", InsideMargin => "insideMargin", Line => "line",
    Margin => "margin", OutsizeMargin => "outsideMargin", Page => "page", Paragraph => "paragraph",
    TopMargin => "topMargin"]);
enum_list!(PICALIGN, PicAlign, [Left => "left", Right => "right", Center => "center", Bottom => "bottom", Top => "top"]);
enum_list!(CSV, CharacterSpacingValues, [DoNotCompress => "doNotCompress", CompressPunctuation => "compressPunctuation",
    CompressPunctuationAndJapaneseKana => "compressPunctuationAndJapaneseKana"]);
pub const HIGHLIGHT: &[&str] = &["yellow", "green", "cyan", "magenta", "darkBlue", "none", "black", "lightGray"];
pub const UNDERLINE: &[&str] = &["single", "double", "wave", "dotted", "none", "words", "dashDotDotHeavy"];

/// A number in `a..=b`, with its ends and zero favoured.
pub fn num(r: &mut Rng, a: i64, b: i64) -> i64 {
    match r.below(8) {
        0 => a,
        1 => b,
        2 if a <= 0 && b >= 0 => 0,
        3 if a <= 1 && b >= 1 => 1,
        _ => r.range(a, b.min(a + 100_000)),
    }
}

pub fn color(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "auto".into(),
        1 => "FFFFFF".into(),
        2 => "000000".into(),
        3 => format!("{:06x}", r.below(0x1000000)),
        _ => format!("{:06X}", r.below(0x1000000)),
    }
}

// ---------------------------------------------------------------- run properties

#[derive(Clone, Debug)]
pub enum RP {
    Style(String),
    Size(usize),
    Spacing(i32),
    Color { val: Option<String>, theme: Option<usize>, shade: Option<String>, tint: Option<String> },
    Highlight(String),
    Vert(usize),
    Bold(bool),
    Italic(bool),
    Caps,
    Strike(bool),
    Dstrike(bool),
    Underline(String),
    Vanish,
    SpecVanish,
    Fonts([Option<String>; 9]),
    Stretch(i32),
    Fit(usize, Option<u32>),
    Border { color: String, size: usize, space: usize, typ: usize },
    Shading(Shd),
}

#[derive(Clone, Debug)]
pub struct Shd {
    pub typ: usize,
    pub color: String,
    pub fill: String,
}

impl Shd {
    pub fn gen(r: &mut Rng) -> Shd {
        Shd { typ: r.us(SHD.len()), color: color(r), fill: color(r) }
    }
    pub fn obj(&self) -> Shading {
        Shading::new().shd_type(SHD[self.typ].0).color(&self.color).fill(&self.fill)
    }
    pub fn el(&self) -> El {
        v("w:shd", SHD[self.typ].1).a("w:color", &self.color).a("w:fill", &self.fill)
    }
}

pub const FONT_ATTRS: [&str; 9] =
    ["ascii", "hAnsi", "eastAsia", "cs", "asciiTheme", "hAnsiTheme", "eastAsiaTheme", "cstheme", "hint"];

pub fn fonts_obj(f: &[Option<String>; 9]) -> RunFonts {
    let mut o = RunFonts::new();
    for (i, x) in f.iter().enumerate() {
        if let Some(s) = x {
            o = match i {
                0 => o.ascii(s),
                1 => o.hi_ansi(s),
                2 => o.east_asia(s),
                3 => o.cs(s),
                4 => o.ascii_theme(s),
                5 => o.hi_ansi_theme(s),
                6 => o.east_asia_theme(s),
                7 => o.cs_theme(s),
                _ => o.hint(s),
            };
        }
    }
    o
}

pub fn fonts_el(f: &[Option<String>; 9]) -> El {
    let mut e = El::new("w:rFonts");
    for (i, x) in f.iter().enumerate() {
        e = e.opt(&format!("w:{}", FONT_ATTRS[i]), x.as_ref());
    }
    e
}

pub fn gen_fonts(r: &mut Rng, m: &str) -> [Option<String>; 9] {
    let mut f: [Option<String>; 9] = Default::default();
    for (i, x) in f.iter_mut().enumerate() {
        if r.one_in(3) {
            *x = Some(match i {
                4..=7 => r.pick(&["minorHAnsi", "majorEastAsia", "minorBidi", "majorAscii"]).to_string(),
                8 => r.pick(&["eastAsia", "cs", "default"]).to_string(),
                _ => r.attr_text(m),
            });
        }
    }
    if f.iter().all(|x| x.is_none()) {
        f[r.us(4)] = Some(m.to_string());
    }
    f
}

/// Which run properties may be set.
#[derive(Clone, Copy, PartialEq)]
pub enum On {
    Run,
    RunProperty,
    Para,
    Style,
    Level,
}

impl RP {
    pub fn gen(r: &mut Rng, pct: u64, m: &str, styles: &[String], stretch: bool) -> Vec<RP> {
        let mut o = vec![];
        macro_rules! maybe {
            ($e:expr) => {
                if r.pct(pct) {
                    let x = $e;
                    o.push(x);
                }
            };
        }
        maybe!(RP::Style(if styles.is_empty() || r.one_in(3) { r.attr_text(m) } else { r.pick(styles).clone() }));
        maybe!(RP::Size(num(r, 0, 3276) as usize));
        maybe!(RP::Spacing(num(r, -31680, 31680) as i32));
        maybe!({
            let mut val = if r.pct(70) { Some(color(r)) } else { None };
            let theme = if r.one_in(3) { Some(r.us(THEME.len())) } else { None };
            if val.is_none() && theme.is_none() {
                val = Some(color(r));
            }
            let byte = |r: &mut Rng| {
                let n = r.below(256);
                if r.one_in(3) {
                    format!("{n:02x}")
                } else {
                    format!("{n:02X}")
                }
            };
            let shade = if theme.is_some() && r.flip() { Some(byte(r)) } else { None };
            let tint = if theme.is_some() && r.flip() { Some(byte(r)) } else { None };
            RP::Color { val, theme, shade, tint }
        });
        maybe!(RP::Highlight(r.pick(HIGHLIGHT).to_string()));
        maybe!(RP::Vert(r.us(VERT.len())));
        maybe!(RP::Bold(r.pct(75)));
        maybe!(RP::Italic(r.pct(75)));
        maybe!(RP::Caps);
        // strike and dstrike exclude each other
        if r.pct(pct) {
            o.push(if r.flip() { RP::Strike(r.pct(75)) } else { RP::Dstrike(r.pct(75)) });
        }
        maybe!(RP::Underline(r.pick(UNDERLINE).to_string()));
        maybe!(RP::Vanish);
        maybe!(RP::SpecVanish);
        maybe!(RP::Fonts(gen_fonts(r, m)));
        if stretch {
            maybe!(RP::Stretch(num(r, 1, 600) as i32));
        }
        maybe!(RP::Fit(num(r, 0, 30000) as usize, if r.flip() { Some(r.next() as u32) } else { None }));
        maybe!(RP::Border { color: color(r), size: num(r, 0, 96) as usize, space: num(r, 0, 31) as usize, typ: r.us(BORDER.len()) });
        maybe!(RP::Shading(Shd::gen(r)));
        r.shuffle(&mut o);
        o
    }

    pub fn can(&self, on: On) -> bool {
        use RP::*;
        match on {
            On::RunProperty => true,
            On::Run => !matches!(self, Vert(_) | Caps | Strike(false) | Dstrike(false) | SpecVanish | Fit(..)),
            On::Para => matches!(self, Size(_) | Bold(true) | Italic(true) | Fonts(_) | Spacing(_))
                || matches!(self, Color { theme: None, .. }),
            On::Style => matches!(
                self,
                Size(_) | Color { .. } | Highlight(_) | Bold(true) | Italic(true) | Underline(_) | Vanish | Border { .. }
                    | Fonts(_)
            ),
            On::Level => matches!(
                self,
                Size(_) | Spacing(_) | Highlight(_) | Bold(_) | Italic(_) | Strike(_) | Dstrike(_) | Underline(_)
                    | Vanish | Fonts(_)
            ) || matches!(self, Color { theme: None, .. }),
        }
    }

    fn border(color: &str, size: usize, space: usize, typ: usize) -> TextBorder {
        TextBorder::new().color(color).size(size).space(space).border_type(BORDER[typ].0)
    }

    pub fn rpr(&self, p: RunProperty) -> RunProperty {
        match self {
            RP::Style(s) => p.style(s),
            RP::Size(n) => p.size(*n),
            RP::Spacing(n) => {
                if n % 2 == 0 {
                    p.spacing(*n)
                } else {
                    p.character_spacing(*n)
                }
            }
            RP::Color { val, theme, shade, tint } => {
                let mut p = p;
                if let Some(v) = val {
                    p = p.color(v);
                }
                if let Some(t) = theme {
                    p = p.theme_color(THEME[*t].0);
                }
                if let Some(t) = shade {
                    p = p.theme_shade(t);
                }
                if let Some(t) = tint {
                    p = p.theme_tint(t);
                }
                p
            }
            RP::Highlight(s) => p.highlight(s),
            RP::Vert(i) => p.vert_align(VERT[*i].0),
            RP::Bold(true) => p.bold(),
            RP::Bold(false) => p.disable_bold(),
            RP::Italic(true) => p.italic(),
            RP::Italic(false) => p.disable_italic(),
            RP::Caps => p.caps(),
            RP::Strike(true) => p.strike(),
            RP::Strike(false) => p.disable_strike(),
            RP::Dstrike(true) => p.dstrike(),
            RP::Dstrike(false) => p.disable_dstrike(),
            RP::Underline(s) => p.underline(s),
            RP::Vanish => p.vanish(),
            RP::SpecVanish => p.spec_vanish(),
            RP::Fonts(f) => p.fonts(fonts_obj(f)),
            RP::Stretch(n) => p.stretch(*n),
            RP::Fit(n, id) => p.fit_text(*n, *id),
            RP::Border { color, size, space, typ } => p.text_border(Self::border(color, *size, *space, *typ)),
            RP::Shading(s) => p.shading(s.obj()),
        }
    }

    pub fn run(&self, r: Run) -> Run {
        match self {
            RP::Style(s) => r.style(s),
            RP::Size(n) => r.size(*n),
            RP::Spacing(n) => r.character_spacing(*n),
            RP::Color { val, theme, shade, tint } => {
                let mut p = r;
                if let Some(v) = val {
                    p = p.color(v);
                }
                if let Some(t) = theme {
                    p = p.theme_color(THEME[*t].0);
                }
                if let Some(t) = shade {
                    p = p.theme_shade(t);
                }
                if let Some(t) = tint {
                    p = p.theme_tint(t);
                }
                p
            }
            RP::Highlight(s) => r.highlight(s),
            RP::Bold(true) => r.bold(),
            RP::Bold(false) => r.disable_bold(),
            RP::Italic(true) => r.italic(),
            RP::Italic(false) => r.disable_italic(),
            RP::Strike(true) => r.strike(),
            RP::Dstrike(true) => r.dstrike(),
            RP::Underline(s) => r.underline(s),
            RP::Vanish => r.vanish(),
            RP::Fonts(f) => r.fonts(fonts_obj(f)),
            RP::Stretch(n) => r.stretch(*n),
            RP::Border { color, size, space, typ } => r.text_border(Self::border(color, *size, *space, *typ)),
            RP::Shading(s) => r.shading(s.obj()),
            _ => unreachable!(),
        }
    }

    pub fn para(&self, p: Paragraph) -> Paragraph {
        match self {
            RP::Size(n) => p.size(*n),
            RP::Spacing(n) => p.character_spacing(*n),
            RP::Bold(true) => p.bold(),
            RP::Italic(true) => p.italic(),
            RP::Fonts(f) => p.fonts(fonts_obj(f)),
            RP::Color { val: Some(v), .. } => p.color(v),
            _ => unreachable!(),
        }
    }

    pub fn style(&self, s: Style) -> Style {
        match self {
            RP::Size(n) => s.size(*n),
            RP::Color { val, theme, shade, tint } => {
                let mut p = s;
                if let Some(v) = val {
                    p = p.color(v);
                }
                if let Some(t) = theme {
                    p = p.theme_color(THEME[*t].0);
                }
                if let Some(t) = shade {
                    p = p.theme_shade(t);
                }
                if let Some(t) = tint {
                    p = p.theme_tint(t);
                }
                p
            }
            RP::Highlight(h) => s.highlight(h),
            RP::Bold(true) => s.bold(),
            RP::Italic(true) => s.italic(),
            RP::Underline(u) => s.underline(u),
            RP::Vanish => s.vanish(),
            RP::Border { color, size, space, typ } => s.text_border(Self::border(color, *size, *space, *typ)),
            RP::Fonts(f) => s.fonts(fonts_obj(f)),
            _ => unreachable!(),
        }
    }

    pub fn level(&self, l: Level) -> Level {
        match self {
            RP::Size(n) => l.size(*n),
            RP::Spacing(n) => l.spacing(*n),
            RP::Color { val: Some(v), .. } => l.color(v),
            RP::Highlight(h) => l.highlight(h),
            RP::Bold(true) => l.bold(),
            RP::Bold(false) => l.disable_bold(),
            RP::Italic(true) => l.italic(),
            RP::Italic(false) => l.disable_italic(),
            RP::Strike(true) => l.strike(),
            RP::Strike(false) => l.disable_strike(),
            RP::Dstrike(true) => l.dstrike(),
            RP::Dstrike(false) => l.disable_dstrike(),
            RP::Underline(u) => l.underline(u),
            RP::Vanish => l.vanish(),
            RP::Fonts(f) => l.fonts(fonts_obj(f)),
            _ => unreachable!(),
        }
    }

    pub fn els(&self) -> Vec<El> {
        let tog = |n: &str, on: bool| if on { El::new(n) } else { v(n, "false") };
        match self {
            RP::Style(s) => vec![v("w:rStyle", s)],
            RP::Size(n) => vec![v("w:sz", n), v("w:szCs", n)],
            RP::Spacing(n) => vec![v("w:spacing", n)],
            RP::Color { val, theme, shade, tint } => vec![v("w:color", val.clone().unwrap_or("auto".into()))
                .opt("w:themeColor", theme.map(|t| THEME[t].1))
                .opt("w:themeShade", shade.as_ref())
                .opt("w:themeTint", tint.as_ref())],
            RP::Highlight(s) => vec![v("w:highlight", s)],
            RP::Vert(i) => vec![v("w:vertAlign", VERT[*i].1)],
            RP::Bold(b) => vec![tog("w:b", *b), tog("w:bCs", *b)],
            RP::Italic(b) => vec![tog("w:i", *b), tog("w:iCs", *b)],
            RP::Caps => vec![El::new("w:caps")],
            RP::Strike(b) => vec![tog("w:strike", *b)],
            RP::Dstrike(b) => vec![tog("w:dstrike", *b)],
            RP::Underline(s) => vec![v("w:u", s)],
            RP::Vanish => vec![El::new("w:vanish")],
            RP::SpecVanish => vec![El::new("w:specVanish")],
            RP::Fonts(f) => vec![fonts_el(f)],
            RP::Stretch(n) => vec![v("w:w", n)],
            RP::Fit(n, id) => vec![v("w:fitText", n).opt("w:id", *id)],
            RP::Border { color, size, space, typ } => {
                vec![v("w:bdr", BORDER[*typ].1).a("w:sz", size).a("w:space", space).a("w:color", color)]
            }
            RP::Shading(s) => vec![s.el()],
        }
    }
}

pub fn rpr_el(ps: &[RP]) -> El {
    let mut e = El::new("w:rPr");
    for p in ps {
        for x in p.els() {
            e.push(x);
        }
    }
    e
}

// ---------------------------------------------------------------- paragraph properties

#[derive(Clone, Debug)]
pub struct Ind {
    pub left: Option<i32>,
    pub special: Option<(bool, i32)>, // hanging?
    pub right: Option<i32>,
    pub chars: Option<i32>,
    pub hanging_chars: Option<i32>,
    pub first_line_chars: Option<i32>,
}

impl Ind {
    pub fn gen(r: &mut Rng, chars: bool) -> Ind {
        let o = |r: &mut Rng| if r.flip() { Some(num(r, -31680, 31680) as i32) } else { None };
        let mut i = Ind {
            left: o(r),
            special: if r.flip() { Some((r.flip(), num(r, 0, 31680) as i32)) } else { None },
            right: o(r),
            chars: if r.one_in(3) { Some(num(r, 0, 5000) as i32) } else { None },
            hanging_chars: None,
            first_line_chars: None,
        };
        if chars && r.one_in(3) {
            let n = num(r, 0, 5000) as i32;
            match i.special {
                Some((true, _)) => i.hanging_chars = Some(n),
                _ => i.first_line_chars = Some(n),
            }
        }
        i
    }
    pub fn sp(&self) -> Option<SpecialIndentType> {
        self.special.map(|(h, n)| if h { SpecialIndentType::Hanging(n) } else { SpecialIndentType::FirstLine(n) })
    }
    pub fn el(&self) -> El {
        let e = El::new("w:ind")
            .a("w:left", self.left.unwrap_or(0))
            .a("w:right", self.right.unwrap_or(0))
            .opt("w:leftChars", self.chars)
            .opt("w:hangingChars", self.hanging_chars)
            .opt("w:firstLineChars", self.first_line_chars);
        match self.special {
            Some((true, n)) => e.a("w:hanging", n),
            Some((false, n)) => e.a("w:firstLine", n),
            None => e,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Spc {
    pub before: Option<u32>,
    pub after: Option<u32>,
    pub before_lines: Option<u32>,
    pub after_lines: Option<u32>,
    pub line: Option<i32>,
    pub rule: Option<usize>,
}

impl Spc {
    pub fn gen(r: &mut Rng) -> Spc {
        let mut s = Spc { before: None, after: None, before_lines: None, after_lines: None, line: None, rule: None };
        loop {
            let mut any = false;
            if r.flip() {
                s.before = Some(num(r, 0, 31680) as u32);
                any = true;
            }
            if r.flip() {
                s.after = Some(num(r, 0, 31680) as u32);
                any = true;
            }
            if r.one_in(3) {
                s.before_lines = Some(num(r, 0, 31680) as u32);
                any = true;
            }
            if r.one_in(3) {
                s.after_lines = Some(num(r, 0, 31680) as u32);
                any = true;
            }
            if r.flip() {
                s.line = Some(num(r, 0, 31680) as i32);
                any = true;
                if r.flip() {
                    s.rule = Some(r.us(LINERULE.len()));
                }
            }
            if any {
                return s;
            }
        }
    }
    pub fn obj(&self) -> LineSpacing {
        let mut l = LineSpacing::new();
        if let Some(x) = self.before {
            l = l.before(x);
        }
        if let Some(x) = self.after {
            l = l.after(x);
        }
        if let Some(x) = self.before_lines {
            l = l.before_lines(x);
        }
        if let Some(x) = self.after_lines {
            l = l.after_lines(x);
        }
        if let Some(x) = self.line {
            l = l.line(x);
        }
        if let Some(x) = &self.rule {
            l = l.line_rule(LINERULE[*x].0.clone());
        }
        l
    }
    pub fn el(&self) -> El {
        El::new("w:spacing")
            .opt("w:before", self.before)
            .opt("w:after", self.after)
            .opt("w:beforeLines", self.before_lines)
            .opt("w:afterLines", self.after_lines)
            .opt("w:line", self.line)
            .opt("w:lineRule", self.rule.map(|i| LINERULE[i].1))
    }
}

#[derive(Clone, Debug)]
pub enum PP {
    Style(String),
    Num(usize, usize),
    Align(usize),
    Ind(Ind),
    Spacing(Spc),
    Outline(usize),
    KeepNext,
    KeepLines,
    PageBreak,
    Widow,
    Bidi,
    Snap(bool),
    Shading(Shd),
    Tabs(Vec<(usize, Option<usize>, usize)>),
    TextAlign(usize),
    AdjustRight(isize),
    Frame(Vec<(usize, String)>),
    Borders(Vec<(usize, Option<(usize, usize, usize, String)>)>),
}

const PBPOS: &[&str] = &["left", "right", "top", "bottom", "between", "bar"];
fn pbpos(i: usize) -> ParagraphBorderPosition {
    match i {
        0 => ParagraphBorderPosition::Left,
        1 => ParagraphBorderPosition::Right,
        2 => ParagraphBorderPosition::Top,
        3 => ParagraphBorderPosition::Bottom,
        4 => ParagraphBorderPosition::Between,
        _ => ParagraphBorderPosition::Bar,
    }
}

/// Frame attributes: name and how a value is made.
const FRAME: &[&str] = &["wrap", "vAnchor", "hAnchor", "hRule", "xAlign", "yAlign", "hSpace", "vSpace", "x", "y", "w", "h"];

fn frame_value(r: &mut Rng, i: usize) -> String {
    match i {
        0 => r.pick(&["around", "auto", "none", "tight"]).to_string(),
        1 | 2 => r.pick(&["page", "margin", "text"]).to_string(),
        3 => r.pick(&["auto", "atLeast", "exact"]).to_string(),
        4 => r.pick(&["left", "center", "right", "inside"]).to_string(),
        5 => r.pick(&["top", "center", "bottom", "inline"]).to_string(),
        6 | 7 => num(r, 0, 31680).to_string(),
        8 | 9 => num(r, -31680, 31680).to_string(),
        _ => num(r, 0, 31680).to_string(),
    }
}

macro_rules! frame_apply {
    ($p:expr, $i:expr, $s:expr) => {{
        let p = $p;
        let s: &str = $s;
        match $i {
            0 => p.wrap(s),
            1 => p.v_anchor(s),
            2 => p.h_anchor(s),
            3 => p.h_rule(s),
            4 => p.x_align(s),
            5 => p.y_align(s),
            6 => p.h_space(s.parse().unwrap()),
            7 => p.v_space(s.parse().unwrap()),
            8 => p.frame_x(s.parse().unwrap()),
            9 => p.frame_y(s.parse().unwrap()),
            10 => p.frame_width(s.parse().unwrap()),
            _ => p.frame_height(s.parse().unwrap()),
        }
    }};
}

#[derive(Clone, Copy)]
pub struct PCfg<'a> {
    pub pct: u64,
    pub m: &'a str,
    pub styles: &'a [String],
    pub nums: &'a [usize],
    pub frame: bool,
}

impl PP {
    pub fn gen(r: &mut Rng, c: PCfg) -> Vec<PP> {
        let mut o = vec![];
        let pct = c.pct;
        macro_rules! maybe {
            ($e:expr) => {
                if r.pct(pct) {
                    let x = $e;
                    o.push(x);
                }
            };
        }
        maybe!(PP::Style(if c.styles.is_empty() || r.one_in(3) { r.attr_text(c.m) } else { r.pick(c.styles).clone() }));
        if !c.nums.is_empty() {
            maybe!(PP::Num(*r.pick(c.nums), r.us(9)));
        }
        maybe!(PP::Align(r.us(ALIGN.len())));
        maybe!(PP::Ind(Ind::gen(r, true)));
        maybe!(PP::Spacing(Spc::gen(r)));
        maybe!(PP::Outline(if r.one_in(8) { *r.pick(&[10, 11, 300, usize::MAX]) } else { r.us(10) }));
        maybe!(PP::KeepNext);
        maybe!(PP::KeepLines);
        maybe!(PP::PageBreak);
        maybe!(PP::Widow);
        maybe!(PP::Bidi);
        maybe!(PP::Snap(r.flip()));
        maybe!(PP::Shading(Shd::gen(r)));
        maybe!(PP::Tabs(
            (0..1 + r.us(4))
                .map(|_| (r.us(TABV.len()), if r.flip() { Some(r.us(LEADER.len())) } else { None }, num(r, 0, 31680) as usize))
                .collect()
        ));
        maybe!(PP::TextAlign(r.us(TEXTALIGN.len())));
        maybe!(PP::AdjustRight(r.below(2) as isize));
        if c.frame {
            maybe!({
                let mut v: Vec<(usize, String)> = vec![];
                for i in 0..FRAME.len() {
                    if r.one_in(3) {
                        v.push((i, frame_value(r, i)));
                    }
                }
                if v.is_empty() {
                    v.push((10, frame_value(r, 10)));
                }
                r.shuffle(&mut v);
                PP::Frame(v)
            });
        }
        maybe!({
            let mut v = vec![];
            for i in 0..PBPOS.len() {
                if r.flip() {
                    v.push((
                        i,
                        if r.one_in(6) {
                            None
                        } else {
                            Some((r.us(BORDER.len()), num(r, 0, 31) as usize, num(r, 2, 96) as usize, color(r)))
                        },
                    ));
                }
            }
            if v.is_empty() {
                v.push((0, None));
            }
            if r.one_in(8) {
                v = (0..PBPOS.len()).map(|i| (i, None)).collect();
            }
            r.shuffle(&mut v);
            PP::Borders(v)
        });
        r.shuffle(&mut o);
        o
    }

    pub fn can_para(&self) -> bool {
        !matches!(self, PP::Bidi | PP::Shading(_) | PP::TextAlign(_) | PP::AdjustRight(_) | PP::Borders(_))
    }

    fn tab(t: &(usize, Option<usize>, usize)) -> Tab {
        let mut x = Tab::new().val(TABV[t.0].0).pos(t.2);
        if let Some(l) = t.1 {
            x = x.leader(LEADER[l].0);
        }
        x
    }

    pub fn para(&self, p: Paragraph) -> Paragraph {
        match self {
            PP::Style(s) => p.style(s),
            PP::Num(a, b) => p.numbering(NumberingId::new(*a), IndentLevel::new(*b)),
            PP::Align(i) => p.align(ALIGN[*i].0),
            PP::Ind(i) => {
                let mut p = p.indent(i.left, i.sp(), i.right, i.chars);
                if let Some(n) = i.hanging_chars {
                    p = p.hanging_chars(n);
                }
                if let Some(n) = i.first_line_chars {
                    p = p.first_line_chars(n);
                }
                p
            }
            PP::Spacing(s) => p.line_spacing(s.obj()),
            PP::Outline(n) => p.outline_lvl(*n),
            PP::KeepNext => p.keep_next(true),
            PP::KeepLines => p.keep_lines(true),
            PP::PageBreak => p.page_break_before(true),
            PP::Widow => p.widow_control(true),
            PP::Snap(b) => p.snap_to_grid(*b),
            PP::Tabs(ts) => {
                if ts.len() % 2 == 0 {
                    p.tabs(&ts.iter().map(Self::tab).collect::<Vec<_>>())
                } else {
                    let mut p = p;
                    for t in ts {
                        p = p.add_tab(Self::tab(t));
                    }
                    p
                }
            }
            PP::Frame(f) => {
                let mut p = p;
                for (i, s) in f {
                    p = frame_apply!(p, *i, s);
                }
                p
            }
            PP::Borders(b) if b.len() % 2 == 0 => {
                let set = self.ppr(ParagraphProperty::new()).borders;
                set.into_iter().fold(p, |p, set| p.set_borders(set))
            }
            other => {
                let mut p = p;
                p.property = other.ppr(std::mem::take(&mut p.property));
                p
            }
        }
    }

    pub fn ppr(&self, p: ParagraphProperty) -> ParagraphProperty {
        match self {
            PP::Style(s) => p.style(s),
            PP::Num(a, b) => p.numbering(NumberingId::new(*a), IndentLevel::new(*b)),
            PP::Align(i) => p.align(ALIGN[*i].0),
            PP::Ind(i) => {
                let mut p = p.indent(i.left, i.sp(), i.right, i.chars);
                if let Some(x) = p.indent.as_mut() {
                    x.hanging_chars = i.hanging_chars;
                    x.first_line_chars = i.first_line_chars;
                }
                p
            }
            PP::Spacing(s) => p.line_spacing(s.obj()),
            PP::Outline(n) => p.outline_lvl(*n),
            PP::KeepNext => p.keep_next(true),
            PP::KeepLines => p.keep_lines(true),
            PP::PageBreak => p.page_break_before(true),
            PP::Widow => p.widow_control(true),
            PP::Bidi => p.bidi(true),
            PP::Snap(b) => p.snap_to_grid(*b),
            PP::Shading(s) => p.shading(s.obj()),
            PP::Tabs(ts) => {
                let mut p = p;
                for t in ts {
                    p = p.add_tab(Self::tab(t));
                }
                p
            }
            PP::TextAlign(i) => p.text_alignment(TEXTALIGN[*i].0),
            PP::AdjustRight(n) => p.adjust_right_ind(*n),
            PP::Frame(f) => {
                let mut x = FrameProperty::new();
                for (i, s) in f {
                    let s = s.as_str();
                    x = match i {
                        0 => x.wrap(s),
                        1 => x.v_anchor(s),
                        2 => x.h_anchor(s),
                        3 => x.h_rule(s),
                        4 => x.x_align(s),
                        5 => x.y_align(s),
                        6 => x.h_space(s.parse().unwrap()),
                        7 => x.v_space(s.parse().unwrap()),
                        8 => x.x(s.parse().unwrap()),
                        9 => x.y(s.parse().unwrap()),
                        10 => x.width(s.parse().unwrap()),
                        _ => x.height(s.parse().unwrap()),
                    };
                }
                p.frame_property(x)
            }
            PP::Borders(b) if b.len() == PBPOS.len() && b.iter().all(|x| x.1.is_none()) => p.clear_all_borders(),
            PP::Borders(b) => {
                let mut p = p;
                let mut set = ParagraphBorders::with_empty();
                let whole = b.len() % 2 == 0;
                for (i, x) in b {
                    match x {
                        None if whole => set = set.clear(pbpos(*i)),
                        None => p = p.clear_border(pbpos(*i)),
                        Some((t, space, size, c)) => {
                            let o = ParagraphBorder::new(pbpos(*i)).val(BORDER[*t].0).space(*space).size(*size).color(c);
                            if whole {
                                set = set.set(o);
                            } else {
                                p = p.set_border(o);
                            }
                        }
                    }
                }
                if whole {
                    p = p.set_borders(set);
                }
                p
            }
        }
    }

    pub fn can_style(&self) -> bool {
        matches!(
            self,
            PP::Align(_) | PP::TextAlign(_) | PP::Snap(_) | PP::Spacing(_) | PP::Ind(_) | PP::Outline(_) | PP::Frame(_)
        )
    }

    pub fn style(&self, s: Style) -> Style {
        match self {
            PP::Align(i) => s.align(ALIGN[*i].0),
            PP::TextAlign(i) => s.text_alignment(TEXTALIGN[*i].0),
            PP::Snap(b) => s.snap_to_grid(*b),
            PP::Spacing(x) => s.line_spacing(x.obj()),
            PP::Ind(i) => {
                let mut p = s.indent(i.left, i.sp(), i.right, i.chars);
                if let Some(n) = i.hanging_chars {
                    p = p.hanging_chars(n);
                }
                if let Some(n) = i.first_line_chars {
                    p = p.first_line_chars(n);
                }
                p
            }
            PP::Outline(n) => s.outline_lvl(*n),
            PP::Frame(f) => {
                let mut p = s;
                for (i, s) in f {
                    p = frame_apply!(p, *i, s);
                }
                p
            }
            _ => unreachable!(),
        }
    }

    pub fn el(&self) -> El {
        match self {
            PP::Style(s) => v("w:pStyle", s),
            PP::Num(a, b) => El::new("w:numPr").k(v("w:numId", a)).k(v("w:ilvl", b)),
            PP::Align(i) => v("w:jc", ALIGN[*i].1),
            PP::Ind(i) => i.el(),
            PP::Spacing(s) => s.el(),
            // higher levels are text
            PP::Outline(n) => v("w:outlineLvl", n.min(&9)),
            PP::KeepNext => El::new("w:keepNext"),
            PP::KeepLines => El::new("w:keepLines"),
            PP::PageBreak => El::new("w:pageBreakBefore"),
            PP::Widow => El::new("w:widowControl"),
            PP::Bidi => El::new("w:bidi"),
            PP::Snap(b) => {
                if *b {
                    El::new("w:snapToGrid")
                } else {
                    v("w:snapToGrid", "false")
                }
            }
            PP::Shading(s) => s.el(),
            PP::Tabs(ts) => El::new("w:tabs").ks(
                ts.iter()
                    .map(|t| v("w:tab", TABV[t.0].1).opt("w:leader", t.1.map(|l| LEADER[l].1)).a("w:pos", t.2))
                    .collect(),
            ),
            PP::TextAlign(i) => v("w:textAlignment", TEXTALIGN[*i].1),
            PP::AdjustRight(n) => v("w:adjustRightInd", n),
            PP::Frame(f) => {
                let mut e = El::new("w:framePr");
                for (i, s) in f {
                    e = e.a(&format!("w:{}", FRAME[*i]), s);
                }
                e
            }
            PP::Borders(b) => {
                let mut e = El::new("w:pBdr");
                // setting a single border starts from the default set
                if b.len() % 2 == 1 {
                    for i in 0..4 {
                        if b.iter().all(|x| x.0 != i) {
                            let n = format!("w:{}", PBPOS[i]);
                            e.push(v(&n, "single").a("w:space", 0).a("w:sz", 2).a("w:color", "auto"));
                        }
                    }
                }
                for (i, x) in b {
                    let n = format!("w:{}", PBPOS[*i]);
                    e.push(match x {
                        None => v(&n, "nil").a("w:space", 0).a("w:sz", 2).a("w:color", "auto"),
                        Some((t, space, size, c)) => {
                            v(&n, BORDER[*t].1).a("w:space", space).a("w:sz", size).a("w:color", c)
                        }
                    });
                }
                e
            }
        }
    }
}
