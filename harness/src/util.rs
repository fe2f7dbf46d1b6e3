//! Random numbers and hostile strings.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0xD1B54A32D192ED03))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

pub fn hash(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

const PIECES: &[&str] = &[
    "<", ">", "&", "\"", "'", "]]>", "<!--", "-->", "<?x?>", "&amp;", "&lt;", "&#65;", "&#x41;",
    "&undefined;", "</w:t>", "</w:p><w:p>", "<w:br/>", "<![CDATA[", " ", "  ", "\u{a0}", "\u{3000}", "é",
    "e\u{301}", "漢字", "ｶﾅ", "שלום", "\u{202e}rtl", "😀", "𠮷", "👨\u{200d}👩\u{200d}👧", "\u{feff}", "\u{fffd}",
    "%1", "{}", "\\", "\\o", "\\\"", "/", "..", ";", ":", "=", "#", "\u{2028}", "\u{85}", "\u{7f}", "0", "true",
    "false", "none", "null", "w:val", "rId1", "xmlns=\"x\"", "\u{e000}", "\u{d7ff}", "\u{10ffff}", "\u{1f1e6}",
];

impl Rng {
    /// A string of XML-legal characters, without line breaks or tabs.
    pub fn text(&mut self, marker: &str) -> String {
        match self.below(10) {
            0..=3 => marker.to_string(),
            4 => format!("{marker} {marker}"),
            _ => {
                let mut s = String::new();
                let n = if self.one_in(40) { 60 } else { 1 + self.below(5) };
                let at = self.below(n + 1);
                for i in 0..n {
                    if i == at {
                        s.push_str(marker);
                    }
                    let piece: &&str = self.pick(PIECES);
                    s.push_str(piece);
                }
                if at == n {
                    s.push_str(marker);
                }
                s
            }
        }
    }
    /// Like `text`, sometimes with leading/trailing blanks, tabs; for text nodes.
    pub fn body_text(&mut self, marker: &str) -> String {
        let mut s = self.text(marker);
        if self.one_in(8) {
            s.insert(0, ' ');
        }
        if self.one_in(8) {
            s.push(' ');
        }
        if self.one_in(12) {
            s.push('\t');
        }
        if self.one_in(20) {
            s = format!("\t{s}  ");
        }
        if self.one_in(20) {
            s = "ibid.".into();
        }
        if self.one_in(40) {
            s = (*self.pick(&[" ", "  ", "\t", "\u{a0}", "\u{3000}", "\u{2003}\u{2009}", "\u{85}", "\u{2028}", ""])).into();
        }
        if self.one_in(400) {
            s = s.repeat(400);
        }
        if self.one_in(5000) {
            // large, and hard to compress
            let n = 60_000 + self.us(90_000);
            s.extend((0..n).map(|_| (0x21 + self.below(0x59)) as u8 as char));
        }
        s
    }
    /// For attribute values.
    pub fn attr_text(&mut self, marker: &str) -> String {
        self.text(marker)
    }
}
