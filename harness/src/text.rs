//! Arbitrary texts, and an independent model of where everything in them is.
use crate::rng::Rng;
use brack_tokenizer::tokens::{Location, LocationData};
use unicode_segmentation::UnicodeSegmentation;

pub const PLAIN: &[&str] = &[
    "a", "b", "c", "x", "Z", "0", "9", "_", "-", "m", "std", "em", "hello", "World", ":", ";", "!", "?", "'", "\"",
    "/", "|", "(", ")", "=", "+", "*", "&", "%", "$", "#", "@", "^", "~", "`",
];
pub const ODD: &[&str] = &[
    "é", "日", "本", "ü", "ß", "e\u{301}", "a\u{300}\u{323}", "👨‍👩‍👧", "🇯🇵", "🇫🇷🇩🇪", "👍🏽", "🏴‍☠️", "\u{1F600}", "नि",
    "க்ஷ", "각", "\u{1100}\u{1161}\u{11a8}", "\u{feff}", "\u{200b}", "\u{202e}", "שלום", "\u{2028}",
    "\u{2029}", "\u{85}", "\u{a0}", "\u{3000}", "\u{fffd}", "\u{10ffff}", "\u{e000}", "𝔘", "\u{0}", "\u{1}", "\u{7f}",
    "\t", "\u{b}", "\u{c}", "\u{1b}", "ﬀ", "İ", "\u{ad}", "１", "、", "。", "．", "，", "［", "］", "＼",
];
pub const MARKS: &[&str] = &["\u{301}", "\u{fe0f}", "\u{20dd}", "\u{200d}", "\u{0903}", "\u{1f3fd}", "🇦", "\r"];
pub const SPECIAL: &[&str] = &["[", "]", "{", "}", "<", ">", ".", ",", "\\", " ", "\n"];
pub const NEWLINES: &[&str] = &["\n", "\r\n", "\n\n", "\r\n\r\n", "\n\r\n"];

/// Fragments close to what documents look like, broken in all sorts of ways.
const SHAPES: &[&str] = &[
    "[a.b c]", "[a.b]", "{a.b c, d}", "<a.b c>", "[a.b c", "[a.b", "[a.", "[a", "[.b c]", "[a c]", "[a. c]", "[a.b c,]",
    "[a.b ,c]", "[a.b c,,d]", "[a.b c.d]", "[a.b\nc]", "[ a.b c]", "[a .b c]", "[a. b c]", "[a.b  c]", "[a.b.c d]",
    "[<a.b>.c d]", "[a.<b.c> d]", "[<a.b>.<c.d> e]", "<<a.b>.c d>", "[a.b [c.d e], {f.g h}]", "\\[", "\\]", "\\.",
    "\\,", "\\\\", "\\", "\\\n", "\\a", "[]", "{}", "<>", "[.]", "[,]", "[a.b}", "{a.b]", "<a.b]", "]", "}", ">", "[[a.b]]",
    "[\\a.b]", "[a\\.b c]", "[a.b\\] c]", "[a.b \\]]", "[a.b [", "[a,b c]", "[a.b,c]", "[a.b c\nd\n\ne]",
];

/// A text of up to about `budget` pieces.
pub fn arbitrary(r: &mut Rng, budget: usize) -> String {
    let w_plain = r.range(1, 40);
    let w_odd = if r.chance(50) { 0 } else { r.range(1, 20) };
    let w_mark = if r.chance(70) { 0 } else { r.range(1, 8) };
    let w_special = r.range(0, 60);
    let w_shape = if r.chance(40) { 0 } else { r.range(1, 20) };
    let w_newline = if r.chance(30) { 0 } else { r.range(1, 8) };
    // favourite specials of this text
    let mut special: Vec<&str> = SPECIAL.to_vec();
    if r.chance(40) {
        r.shuffle(&mut special);
        let keep = r.range(2, 6);
        special.truncate(keep);
    }
    let total = w_plain + w_odd + w_mark + w_special + w_shape + w_newline;
    let n = r.range(0, budget);
    let mut s = String::new();
    for _ in 0..n {
        let mut k = r.below(total);
        let mut hit = |w: usize| {
            if k < w {
                k = usize::MAX;
                true
            } else {
                if k != usize::MAX {
                    k -= w;
                }
                false
            }
        };
        if hit(w_plain) {
            s.push_str(r.pick(PLAIN));
        } else if hit(w_odd) {
            s.push_str(r.pick(ODD));
        } else if hit(w_mark) {
            s.push_str(r.pick(MARKS));
        } else if hit(w_special) {
            s.push_str(r.pick(&special));
        } else if hit(w_shape) {
            s.push_str(r.pick(SHAPES));
        } else {
            s.push_str(r.pick(NEWLINES));
        }
    }
    s
}

/// The position of every grapheme boundary of a text, kept independently of the tokenizer.
pub struct Map {
    /// (byte offset, line, column), sorted by offset, ending with the end of the text
    pub points: Vec<(usize, usize, usize)>,
}

impl Map {
    pub fn new(text: &str) -> Map {
        let (mut line, mut column) = (0, 0);
        let mut points = vec![];
        for (offset, g) in text.grapheme_indices(true) {
            points.push((offset, line, column));
            if g == "\n" || g == "\r\n" {
                line += 1;
                column = 0;
            } else {
                column += 1;
            }
        }
        points.push((text.len(), line, column));
        Map { points }
    }
    pub fn at(&self, offset: usize) -> Option<(usize, usize)> {
        self.points
            .binary_search_by_key(&offset, |p| p.0)
            .ok()
            .map(|i| (self.points[i].1, self.points[i].2))
    }
    pub fn is_boundary(&self, offset: usize) -> bool {
        self.points.binary_search_by_key(&offset, |p| p.0).is_ok()
    }
    pub fn offset(&self, line: usize, column: usize) -> Option<usize> {
        self.points
            .binary_search_by_key(&(line, column), |p| (p.1, p.2))
            .ok()
            .map(|i| self.points[i].0)
    }
    pub fn end(&self) -> (usize, usize) {
        let p = self.points[self.points.len() - 1];
        (p.1, p.2)
    }
    /// Columns of a line that are inside the document (one more for the line break).
    pub fn contains(&self, l: &LocationData) -> bool {
        if self.offset(l.line, l.character).is_some() {
            return true;
        }
        // the end of a line break
        l.character > 0 && self.offset(l.line, l.character - 1).is_some() && self.offset(l.line + 1, 0).is_some()
    }
}

pub fn start(l: &Location) -> (usize, usize) {
    (l.start.line, l.start.character)
}
pub fn end(l: &Location) -> (usize, usize) {
    (l.end.line, l.end.character)
}

pub fn shorten(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…({} bytes)", s.chars().take(n).collect::<String>(), s.len())
    }
}
