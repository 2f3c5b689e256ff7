//! Text generators shared by the workloads.
use crate::core::Rng;

pub const WIDE: &[&str] = &["日", "本", "語", "漢", "한", "글", "Ｗ", "。"];
pub const EMOJI: &[&str] = &["😀", "👨‍👩‍👧", "🇯🇵", "👍🏽", "❤️", "🎉"];
pub const COMB: &[&str] = &["e\u{301}", "n\u{303}", "o\u{308}\u{304}", "й"];
pub const NARROW: &[&str] = &["a", "b", "c", "x", "y", "z", "Q", "1", "7", "é", "ß", "ж", "λ", "-", ".", ",", "!", "█", "─"];

/// one grapheme cluster that is narrow or wide, never zero-width
pub fn grapheme(r: &mut Rng, wide: bool) -> &'static str {
    let k = r.below(if wide { 10 } else { 8 });
    match k {
        0..=5 => NARROW[r.below(NARROW.len())],
        6 | 7 => if wide { COMB[r.below(COMB.len())] } else { NARROW[r.below(12)] },
        8 => WIDE[r.below(WIDE.len())],
        _ => if r.chance(1, 2) { EMOJI[r.below(EMOJI.len())] } else { WIDE[r.below(WIDE.len())] },
    }
}

pub fn word(r: &mut Rng, max: usize, wide: bool) -> String {
    let n = 1 + r.below(max);
    (0..n).map(|_| grapheme(r, wide)).collect()
}

/// words separated by single spaces
pub fn words(r: &mut Rng, n: usize, max: usize, wide: bool) -> String {
    let mut v = Vec::new();
    for _ in 0..n { v.push(word(r, max, wide)); }
    v.join(" ")
}

/// anything at all, including markup/css metacharacters and control characters
pub fn garbage(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(12) {
            0..=2 => s.push(*r.pick(&['[', ']', '\\', '/', '@', '=', '#', '(', ')', '{', '}', ';', ':', '"', '\'', ',', '.', '>', '&', '$', '*', '!', '%', '+', '~', '|', '-', '<'])),
            3 => s.push(*r.pick(&[' ', '\n', '\t', '\r', '\u{0}', '\u{1b}', '\u{7f}', '\u{200d}', '\u{301}', '\u{a0}', '\u{3000}', '\u{2028}'])),
            4 => s.push_str(r.pick(WIDE)),
            5 => s.push_str(r.pick(EMOJI)),
            6 => s.push_str(r.pick(COMB)),
            7 => s.push_str(r.pick(&["bold", "red", "on", "link=", "@click", "rgb(", "not", "/bold", "İ", "ﬁ"])),
            8 => { let c = char::from_u32(r.below(0x11_0000) as u32).unwrap_or('?'); s.push(c); }
            _ => s.push_str(r.pick(NARROW)),
        }
    }
    s
}

pub fn dwidth(s: &str) -> usize { unicode_display_width::width(s) as usize }
pub fn graphemes(s: &str) -> Vec<&str> {
    use unicode_segmentation::UnicodeSegmentation;
    s.graphemes(true).collect()
}
