//! P07: operations on styled lines never lose, duplicate or restyle a character and have exactly the requested width.
use crate::core::*;
use crate::ensure_eq;
use crate::gen_text as gt;
use std::collections::HashMap;
use tcss::types::RgbaColor;
use tcss::types::text::AlignHorizontal;
use textual::segment::{Segment, Style};
use textual::strip::Strip;

pub fn prop() -> Prop {
    Prop { id: "P07", quick: 400_000, thorough: 20_000_000, run, workers: 8,
        rule: "each case builds a line of 0-6 styled segments (narrow, wide, emoji, combining graphemes, spaces, action metadata) and applies a history of 1-6 operations (crop, divide+join, pad/adjust, align, justify, simplify, style, tint, opacity, hatch, split); after each the line is compared cell by cell (text, style, metadata) with an array-of-cells model; distinct = distinct (line, operation history) pairs with at least one cell",
        assumptions: &["a wide character cut in half by a crop leaves blank cells of its style", "zero-width graphemes are not generated on their own"] }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cell { pub g: String, pub w: usize, pub part: usize, pub st: Option<Style>, pub meta: Vec<(String, String)> }

fn expand(g: &str, w: usize, st: &Option<Style>, meta: &[(String, String)], out: &mut Vec<Cell>) {
    for p in 0..w { out.push(Cell { g: g.into(), w, part: p, st: st.clone(), meta: meta.to_vec() }); }
}
fn metav(m: &HashMap<String, String>) -> Vec<(String, String)> { let mut v: Vec<_> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); v.sort(); v }
pub fn cells(s: &Strip) -> Result<Vec<Cell>, String> {
    let mut out = Vec::new();
    let mut sum = 0;
    for seg in s.segments() {
        let m = metav(seg.meta());
        let st = seg.style().cloned();
        let mut w = 0;
        for g in gt::graphemes(seg.text()) { let k = gt::dwidth(g); w += k; expand(g, k, &st, &m, &mut out); }
        if w != seg.cell_length() { return Err(format!("segment {:?} says it is {} cells wide but its text takes {w}", seg.text(), seg.cell_length())); }
        sum += w;
    }
    if sum != s.cell_length() { return Err(format!("strip {:?} says it is {} cells wide but its segments take {sum}", s.text(), s.cell_length())); }
    Ok(out)
}
fn blank(n: usize, st: &Option<Style>, meta: &[(String, String)]) -> Vec<Cell> { let mut v = Vec::new(); for _ in 0..n { expand(" ", 1, st, meta, &mut v); } v }
/// model crop: halves of wide characters become blanks
pub fn crop(c: &[Cell], s: usize, e: usize) -> Vec<Cell> {
    let e = e.min(c.len());
    if s >= e { return vec![]; }
    let mut v = c[s..e].to_vec();
    for i in 0..v.len() {
        let start = (s + i) as i64 - c[s + i].part as i64;
        if start < s as i64 || start as usize + c[s + i].w > e { v[i] = Cell { g: " ".into(), w: 1, part: 0, st: v[i].st.clone(), meta: v[i].meta.clone() }; }
    }
    v
}
fn col(r: &mut Rng) -> RgbaColor { RgbaColor::rgba(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, *r.pick(&[1.0, 1.0, 0.5, 0.25, 0.0])) }
pub fn style(r: &mut Rng) -> Option<Style> {
    if r.chance(1, 4) { return None; }
    Some(Style { fg: if r.bool() { Some(col(r)) } else { None }, bg: if r.bool() { Some(col(r)) } else { None }, bold: r.chance(1, 4), dim: r.chance(1, 6), italic: r.chance(1, 5), underline: r.chance(1, 5), strike: r.chance(1, 6), reverse: r.chance(1, 6) })
}
pub fn strip(r: &mut Rng) -> Strip {
    let n = r.below(7);
    let mut segs = Vec::new();
    let mut last: Option<Style> = None;
    for _ in 0..n {
        let k = r.below(8);
        let t: String = (0..k).map(|_| if r.chance(1, 4) { " " } else { gt::grapheme(r, true) }).collect();
        let st = if r.chance(1, 3) { last.clone() } else { style(r) };
        last = st.clone();
        let mut s = match st { Some(st) => Segment::styled(t, st), None => Segment::new(t) };
        if r.chance(1, 4) { let mut m = HashMap::new(); m.insert("@click".to_string(), r.pick(&["a", "b"]).to_string()); s = s.with_meta(m); }
        segs.push(s);
    }
    match r.below(3) { 0 => Strip::from_iter(segs), _ => Strip::from_segments(segs) }
}

fn cmp(op: &str, before: &Strip, got: &Strip, want: &[Cell]) -> R {
    let g = cells(got).map_err(|e| format!("{op} of {:?}: {e}", before.text()))?;
    if g.len() != want.len() { return Err(format!("{op} of {:?} is {} cells wide, expected {} ({:?})", before.text(), g.len(), want.len(), got.text())); }
    for (i, (a, b)) in g.iter().zip(want).enumerate() { if a != b { return Err(format!("{op} of {:?} gave {:?}: cell {i} is {a:?}, expected {b:?}", before.text(), got.text())); } }
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    let mut s = strip(&mut cx.r);
    let mut m = cells(&s)?;
    let mut hist = format!("{:?}", s.segments().iter().map(|x| (x.text().to_string(), x.style().is_some(), x.meta().len())).collect::<Vec<_>>());
    let steps = 1 + cx.r.below(6);
    for _ in 0..steps {
        let w = m.len();
        let op = cx.r.below(12);
        let before = s.clone();
        match op {
            0 | 1 => {
                let (a, b) = (cx.r.below(w + 3), cx.r.below(w + 4));
                let (a, b) = if cx.r.chance(1, 8) { (a, b) } else { (a.min(b), a.max(b)) };
                s = guard(|| before.crop(a, b))?;
                m = crop(&m, a, b);
                hist.push_str(&format!("|crop({a},{b})"));
                cx.count("crop");
            }
            2 => {
                let mut cuts: Vec<usize> = (0..cx.r.below(4)).map(|_| cx.r.below(w + 3)).collect();
                if !cx.r.chance(1, 6) { cuts.sort(); }
                hist.push_str(&format!("|divide({cuts:?})"));
                let parts = guard(|| before.divide(&cuts))?;
                let mut eff = vec![0];
                for &c in &cuts { if c > *eff.last().unwrap() && c <= w { eff.push(c); } }
                if *eff.last().unwrap() < w { eff.push(w); }
                if cuts.is_empty() { eff = vec![0, w]; }
                ensure_eq!(parts.len(), eff.len() - 1, "divide({cuts:?}) of {:?}: number of parts", before.text());
                let mut want = Vec::new();
                for (i, p) in parts.iter().enumerate() {
                    let c = crop(&m, eff[i], eff[i + 1]);
                    cmp(&format!("part {i} of divide({cuts:?})"), &before, p, &c)?;
                    want.extend(c);
                }
                s = guard(|| Strip::join(parts))?;
                m = want;
                cx.count("divide+join");
            }
            3 => {
                let n = cx.r.below(w + 8);
                let ps = style(&mut cx.r);
                s = guard(|| before.adjust_cell_length(n, ps.clone()))?;
                m = if n <= w { crop(&m, 0, n) } else { let mut v = m.clone(); v.extend(blank(n - w, &ps, &[])); v };
                hist.push_str(&format!("|adjust({n})"));
                cx.count("adjust");
            }
            4 => {
                let n = cx.r.below(w + 8);
                let ps = style(&mut cx.r);
                let a = *cx.r.pick(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
                s = guard(|| before.text_align(a, n, ps.clone()))?;
                m = if n <= w { crop(&m, 0, n) } else {
                    let gap = n - w;
                    let l = match a { AlignHorizontal::Left => 0, AlignHorizontal::Center => gap / 2, AlignHorizontal::Right => gap };
                    let mut v = blank(l, &ps, &[]);
                    v.extend(m.clone());
                    v.extend(blank(gap - l, &ps, &[]));
                    v
                };
                hist.push_str(&format!("|align({a:?},{n})"));
                cx.count("align");
            }
            5 => {
                let n = cx.r.below(w + 12);
                let ps = style(&mut cx.r);
                s = guard(|| before.justify(n, ps.clone()))?;
                hist.push_str(&format!("|justify({n})"));
                let sp = m.iter().filter(|c| c.g == " ").count();
                if n <= w { m = crop(&m, 0, n); }
                else if sp == 0 { m.extend(blank(n - w, &ps, &[])); }
                else {
                    // extra blanks go into the existing gaps, as evenly as possible, later gaps first
                    let extra = n - w;
                    let mut v = Vec::new();
                    let mut gi = 0;
                    for c in &m {
                        v.push(c.clone());
                        if c.g == " " {
                            let e = extra / sp + if sp - 1 - gi < extra % sp { 1 } else { 0 };
                            for _ in 0..e { v.push(c.clone()); }
                            gi += 1;
                        }
                    }
                    m = v;
                }
                cx.count("justify");
            }
            6 => { s = guard(|| before.simplify())?; hist.push_str("|simplify"); cx.count("simplify"); }
            7 => {
                let st = style(&mut cx.r).unwrap_or_default();
                s = guard(|| before.apply_style(&st))?;
                for c in &mut m {
                    let o = c.st.clone().unwrap_or_default();
                    c.st = Some(Style { fg: st.fg.clone().or(o.fg), bg: st.bg.clone().or(o.bg), bold: st.bold | o.bold, dim: st.dim | o.dim, italic: st.italic | o.italic, underline: st.underline | o.underline, strike: st.strike | o.strike, reverse: st.reverse | o.reverse });
                }
                hist.push_str("|style");
                cx.count("apply_style");
            }
            8 => {
                let t = col(&mut cx.r);
                s = guard(|| before.apply_tint(&t))?;
                if t.a > 0.0 { for c in &mut m { if let Some(st) = &mut c.st { st.fg = st.fg.as_ref().map(|x| x.tint(&t)); st.bg = st.bg.as_ref().map(|x| x.tint(&t)); } } }
                hist.push_str("|tint");
                cx.count("apply_tint");
            }
            9 => {
                let o = *cx.r.pick(&[0.0, 0.25, 0.5, 0.9, 1.0, 1.5]);
                let fb = if cx.r.bool() { Some(col(&mut cx.r)) } else { None };
                s = guard(|| before.apply_text_opacity(o, fb.as_ref()))?;
                if o < 1.0 {
                    for c in &mut m {
                        if o <= 0.0 { c.g = " ".into(); c.w = 1; c.part = 0; if let Some(st) = &mut c.st { st.fg = None; } continue; }
                        let bg = c.st.as_ref().and_then(|s| s.bg.clone()).or(fb.clone());
                        let fg = c.st.as_ref().and_then(|s| s.fg.clone()).or_else(|| bg.as_ref().map(|_| RgbaColor::rgba(255, 255, 255, 1.0)));
                        if let Some(fg) = fg { let b = match &bg { Some(b) => fg.blend_toward(b, o), None => fg.with_opacity(o) }; let mut st = c.st.clone().unwrap_or_default(); st.fg = Some(b); c.st = Some(st); }
                    }
                }
                hist.push_str(&format!("|opacity({o})"));
                cx.count("apply_text_opacity");
            }
            10 => {
                let h = *cx.r.pick(&['╱', 'a', '╳', '.']);
                let color = col(&mut cx.r);
                let o = *cx.r.pick(&[1.0f32, 0.5]);
                s = guard(|| before.apply_hatch(h, &color, o))?;
                let mut hc = color.clone();
                hc.a *= o;
                for c in &mut m { if c.g == " " { c.g = h.to_string(); let mut st = c.st.clone().unwrap_or_default(); st.fg = Some(hc.clone()); c.st = Some(st); } }
                hist.push_str("|hatch");
                cx.count("apply_hatch");
            }
            _ => {
                // splitting one segment keeps every character once, in order, with its style
                if let Some(seg) = before.segments().first() {
                    let k = cx.r.below(seg.cell_length() + 3);
                    let (a, b) = guard(|| seg.split_at(k))?;
                    hist.push_str(&format!("|split({k})"));
                    ensure_eq!(format!("{}{}", a.text(), b.text()), seg.text().to_string(), "split_at({k}) of {:?}: the two halves", seg.text());
                    let both = Strip::from_segments(vec![a.clone(), b.clone()]);
                    cmp(&format!("split_at({k})"), &Strip::from_segment(seg.clone()), &both, &cells(&Strip::from_segment(seg.clone()))?)?;
                    let mut pos = 0;
                    for g in gt::graphemes(seg.text()) { if pos >= k { break; } pos += gt::dwidth(g); }
                    ensure_eq!(a.cell_length(), pos, "split_at({k}) of {:?}: width of the left half", seg.text());
                    cx.count("split_at");
                }
            }
        }
        cmp(&hist, &before, &s, &m)?;
        ensure_eq!(s.is_empty(), m.is_empty(), "is_empty after {hist}");
        cx.add("cells compared", m.len() as u64);
        cx.obs.evals += 1;
    }
    if !hist.starts_with("[]") { cx.distinct(&hist); }
    cx.sample(|| hist.clone());
    Ok(())
}
