//! P08: wrapped text loses nothing, never overflows, breaks only where it must; text widgets show it aligned.
use super::p07_strip::{Cell, cells, crop};
use crate::core::*;
use crate::ensure;
use crate::ensure_eq;
use crate::gen_text as gt;
use tcss::types::link::LinkStyle;
use tcss::types::text::{AlignHorizontal, AlignVertical, TextAlign};
use tcss::types::{ComputedStyle, RgbaColor, TextOverflow, TextStyle, TextWrap};
use textual::content::Content;
use textual::segment::Style;
use textual::widget::Widget;
use textual::widget::static_widget::Static;
use textual::{Canvas, Region};

pub fn prop() -> Prop {
    Prop { id: "P08", quick: 300_000, thorough: 10_000_000, run, workers: 8,
        rule: "each case builds 1-4 logical lines of words (narrow, wide, emoji, combining), single, repeated, leading and trailing spaces, some of it inside nested markup tags with colours, attributes and click actions, and wraps it at a width between 0 and 24 in one of the wrap/overflow modes; every produced line is compared with a greedy cell-level model (text, style, metadata, line-end flag). A third of the cases render a Static with random alignment, text alignment, line padding and size and compare every canvas cell; distinct = distinct (text, markup, width, mode) tuples",
        assumptions: &["whitespace around a line break may be dropped", "the style of a truncation ellipsis is free", "width 1 with a wide character may overflow"] }
}

#[derive(Clone, Debug, PartialEq)]
pub struct G { pub g: String, pub w: usize, pub ws: bool, pub st: Style, pub meta: Vec<(String, String)> }

fn rgb(r: &mut Rng) -> RgbaColor { RgbaColor::rgb(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8) }
fn hex(c: &RgbaColor) -> String { format!("#{:02x}{:02x}{:02x}", c.r, c.g, c.b) }

fn link_model(base: &Style, l: &LinkStyle, hov: bool) -> Style {
    let bg = if hov { l.background_hover.clone().or(l.background.clone()) } else { l.background.clone() };
    let col = if hov { l.color_hover.clone().or(l.color.clone()) } else { l.color.clone() };
    let ebg = match (&bg, &base.bg) { (Some(b), Some(under)) if b.a < 1.0 => Some(b.blend_over(under)), (Some(b), _) => Some(b.clone()), (None, u) => u.clone() };
    let fg = match col {
        Some(c) if c.a < 1.0 => Some(match &ebg { Some(b) => c.blend_over(b), None => c }),
        Some(c) => Some(c),
        None => match &ebg { Some(b) => Some(b.get_contrasting_color(0.87)), None => base.fg.clone() },
    };
    let o = |a: bool, b: bool| a || (hov && b);
    Style {
        fg, bg: ebg,
        bold: base.bold || o(l.style.bold, l.style_hover.bold),
        dim: base.dim || o(l.style.dim, l.style_hover.dim),
        italic: base.italic || o(l.style.italic, l.style_hover.italic),
        underline: if hov { l.style.underline || l.style_hover.underline } else { true },
        strike: base.strike || o(l.style.strike, l.style_hover.strike),
        reverse: base.reverse || o(l.style.reverse, l.style_hover.reverse),
    }
}

pub struct Doc { pub markup: String, pub lines: Vec<Vec<G>>, pub tagged: bool }

pub fn gen_doc(r: &mut Rng, base: &Style, link: &Option<LinkStyle>, hov: &Option<String>, use_markup: bool) -> Doc {
    let mut d = Doc { markup: String::new(), lines: vec![vec![]], tagged: false };
    let mut stack: Vec<(Style, Option<String>)> = Vec::new();
    let n = r.below(14);
    let style_of = |stack: &[(Style, Option<String>)]| -> (Style, Vec<(String, String)>) {
        let mut st = base.clone();
        let mut m = None;
        for (s, a) in stack { st = st.apply(s); if a.is_some() { m = a.clone(); } }
        if let (Some(a), Some(l)) = (&m, link) { st = link_model(&st, l, hov.as_ref() == Some(a)); }
        (st, m.map(|a| vec![("@click".to_string(), a)]).unwrap_or_default())
    };
    let push = |d: &mut Doc, stack: &[(Style, Option<String>)], t: &str| {
        let (st, meta) = style_of(stack);
        for g in gt::graphemes(t) { d.lines.last_mut().unwrap().push(G { g: g.into(), w: gt::dwidth(g), ws: g == " ", st: st.clone(), meta: meta.clone() }); }
        d.markup.push_str(t);
    };
    for i in 0..n {
        if use_markup && r.chance(1, 4) && stack.len() < 3 {
            let mut s = Style::default();
            let mut a = None;
            let tag = match r.below(6) {
                0 => { s.bold = true; "bold".to_string() }
                1 => { s.italic = true; s.underline = true; "italic underline".to_string() }
                2 => { let c = rgb(r); let t = hex(&c); s.fg = Some(c); t }
                3 => { let c = rgb(r); let t = format!("on {}", hex(&c)); s.bg = Some(c); t }
                4 => { s.strike = true; s.reverse = true; "strike reverse".to_string() }
                _ => { let x = r.pick(&["one", "two"]).to_string(); let t = format!("@click={x}"); a = Some(x); t }
            };
            d.markup.push_str(&format!("[{tag}]"));
            d.tagged = true;
            stack.push((s, a));
        } else if use_markup && !stack.is_empty() && r.chance(1, 3) { d.markup.push_str("[/]"); stack.pop(); }
        match r.below(12) {
            0 => { d.markup.push('\n'); d.lines.push(vec![]); }
            1 => { let k = 1 + r.below(4); push(&mut d, &stack, &" ".repeat(k)); }
            2 => { let w = gt::word(r, 22, true); push(&mut d, &stack, &w); }
            3..=5 => { let w = gt::word(r, 3, true); push(&mut d, &stack, &w); }
            _ => { if i > 0 && !r.chance(1, 6) { push(&mut d, &stack, " "); } let w = gt::word(r, 6, true); push(&mut d, &stack, &w); }
        }
    }
    while stack.pop().is_some() { d.markup.push_str("[/]"); }
    d
}

pub fn width(g: &[G]) -> usize { g.iter().map(|x| x.w).sum() }
pub fn trim(g: &[G]) -> &[G] {
    let a = g.iter().position(|x| !x.ws).unwrap_or(g.len());
    let b = g.iter().rposition(|x| !x.ws).map(|i| i + 1).unwrap_or(a);
    &g[a..b]
}
fn to_cells(g: &[G]) -> Vec<Cell> {
    let mut v = Vec::new();
    for x in g { for p in 0..x.w { v.push(Cell { g: x.g.clone(), w: x.w, part: p, st: Some(x.st.clone()), meta: x.meta.clone() }); } }
    v
}
fn norm(v: Vec<Cell>) -> Vec<Cell> { v.into_iter().map(|mut c| { c.st = Some(c.st.unwrap_or_default()); c }).collect() }
fn trim_cells(v: &[Cell]) -> &[Cell] {
    let a = v.iter().position(|x| x.g != " ").unwrap_or(v.len());
    let b = v.iter().rposition(|x| x.g != " ").map(|i| i + 1).unwrap_or(a);
    &v[a..b]
}
/// greedy model; returns the pieces of one logical line
pub fn wrap_model(line: &[G], w: usize) -> Vec<Vec<G>> {
    if width(line) <= w { return vec![line.to_vec()]; }
    // tokens: (gap before, word)
    let mut toks: Vec<(Vec<G>, Vec<G>)> = Vec::new();
    let mut gap = Vec::new();
    let mut word: Vec<G> = Vec::new();
    for g in line.iter().cloned() {
        if g.ws { if !word.is_empty() { toks.push((std::mem::take(&mut gap), std::mem::take(&mut word))); } gap.push(g); } else { word.push(g); }
    }
    if !word.is_empty() { toks.push((gap, word)); }
    let mut out: Vec<Vec<G>> = Vec::new();
    let mut cur: Vec<G> = Vec::new();
    for (i, (gap, word)) in toks.into_iter().enumerate() {
        let cand: usize = width(&cur) + if cur.is_empty() && i > 0 { 0 } else { width(&gap) } + width(&word);
        if cand <= w {
            if !(cur.is_empty() && i > 0) { cur.extend(gap); }
            cur.extend(word);
            continue;
        }
        if !cur.is_empty() { out.push(std::mem::take(&mut cur)); }
        if width(&word) <= w { cur = word; continue; }
        let mut part: Vec<G> = Vec::new();
        for g in word { if width(&part) + g.w > w && !part.is_empty() { out.push(std::mem::take(&mut part)); } part.push(g); }
        out.push(part);
    }
    if !cur.is_empty() { out.push(cur); }
    if out.is_empty() { out.push(vec![]); }
    out
}
pub fn fold_model(line: &[G], w: usize) -> Vec<Vec<G>> {
    let mut out = vec![];
    let mut cur: Vec<G> = vec![];
    for g in line { if width(&cur) + g.w > w && !cur.is_empty() { out.push(std::mem::take(&mut cur)); } cur.push(g.clone()); }
    out.push(cur);
    out
}

fn run(cx: &mut Cx) -> R {
    let mut base = Style::default();
    let styled = cx.r.chance(2, 3);
    if styled {
        if cx.r.bool() { base.fg = Some(rgb(&mut cx.r)); }
        if cx.r.bool() { base.bg = Some(rgb(&mut cx.r)); }
        base.bold = cx.r.chance(1, 5);
        base.italic = cx.r.chance(1, 5);
    }
    let link = if cx.r.chance(1, 2) {
        let c = |r: &mut Rng| if r.bool() { let mut c = rgb(r); c.a = *r.pick(&[1.0, 1.0, 0.5]); Some(c) } else { None };
        let ts = |r: &mut Rng| TextStyle { bold: r.chance(1, 3), italic: r.chance(1, 4), underline: r.chance(1, 3), reverse: r.chance(1, 6), strike: r.chance(1, 6), dim: r.chance(1, 6), ..Default::default() };
        Some(LinkStyle { color: c(&mut cx.r), background: c(&mut cx.r), style: ts(&mut cx.r), color_hover: c(&mut cx.r), background_hover: c(&mut cx.r), style_hover: ts(&mut cx.r), ..Default::default() })
    } else { None };
    let hov = if cx.r.chance(1, 3) { Some("one".to_string()) } else { None };
    let use_markup = cx.r.chance(2, 3);
    if cx.case % 3 == 0 { return widget(cx, use_markup); }
    let d = gen_doc(&mut cx.r, &base, &link, &hov, use_markup);
    let mut c = if use_markup { Content::from_markup(&d.markup).map_err(|e| format!("markup {:?} rejected: {e:?}", d.markup))? } else { Content::new(d.markup.clone()) };
    if styled { c = c.with_style(base.clone()); }
    if let Some(l) = &link { c = c.with_link_style(l.clone()).with_hovered_action(hov.clone()); }
    let w = match cx.r.below(10) { 0 => cx.r.below(3), 1 => 60, _ => 2 + cx.r.below(22) };
    let overflow = *cx.r.pick(&[TextOverflow::Fold, TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis]);
    let wrap = if cx.r.chance(3, 5) { TextWrap::Wrap } else { TextWrap::NoWrap };
    let what = format!("{:?} wrapped at {w} ({wrap:?}, {overflow:?})", d.markup);
    cx.distinct(&what);
    let got = guard(|| c.wrap_with_line_end_overflow(w, overflow, wrap))?;
    ensure_eq!(guard(|| c.height())?, d.lines.len(), "height of {:?}", d.markup);
    ensure_eq!(guard(|| c.cell_length())?, d.lines.iter().map(|l| width(l)).max().unwrap_or(0), "cell_length of {:?}", d.markup);
    // unwrapped
    let plain = guard(|| c.lines())?;
    ensure_eq!(plain.len(), d.lines.len(), "lines() of {:?}: count", d.markup);
    for (s, l) in plain.iter().zip(&d.lines) {
        let g = norm(cells(s)?);
        ensure_eq!(g, to_cells(l), "lines() of {:?}", d.markup);
    }
    cx.obs.evals += 1;
    if w == 0 { ensure!(got.len() == 1 && got[0].strip.cell_length() == 0, "{what}: width 0 gave {} lines", got.len()); return Ok(()); }
    if wrap == TextWrap::Wrap && overflow == TextOverflow::Fold {
        let texts: Vec<String> = got.iter().map(|l| l.strip.text()).collect();
        let a: Vec<String> = guard(|| c.wrap(w))?.iter().map(|s| s.text()).collect();
        let b: Vec<String> = guard(|| c.wrap_with_line_end(w))?.iter().map(|s| s.strip.text()).collect();
        ensure!(a == texts && b == texts, "{what}: wrap() gives {a:?}, wrap_with_line_end() {b:?}, wrap_with_line_end_overflow() {texts:?}");
    }
    let wide1 = d.lines.iter().flatten().any(|g| g.w > w);
    let mut it = got.iter();
    for l in &d.lines {
        let model: Vec<Vec<G>> = match (wrap, overflow) {
            (TextWrap::Wrap, _) => wrap_model(l, w),
            (_, TextOverflow::Fold) => fold_model(l, w),
            _ => vec![l.clone()],
        };
        let n = model.len();
        cx.add("wrapped lines", n as u64);
        if n > 1 { cx.count("logical lines that wrapped"); }
        for (i, m) in model.iter().enumerate() {
            let Some(g) = it.next() else { return Err(format!("{what}: only {} lines, logical line {:?} continues", got.len(), l.iter().map(|g| g.g.as_str()).collect::<String>())); };
            ensure_eq!(g.line_end, i + 1 == n, "{what}: line_end flag of {:?}", g.strip.text());
            let gc = norm(cells(&g.strip).map_err(|e| format!("{what}: {e}"))?);
            ensure!(gc.len() <= w || wide1, "{what}: line {:?} is {} cells wide", g.strip.text(), gc.len());
            let mc = to_cells(m);
            if wide1 { continue; }
            let cut = mc.len() > w;
            if cut && overflow == TextOverflow::Ellipsis {
                let keep = crop(&mc, 0, w - 1);
                ensure_eq!(gc.len(), w, "{what}: width of truncated line {:?}", g.strip.text());
                ensure_eq!(&gc[..w - 1], &keep[..], "{what}: kept part of the truncated line");
                ensure_eq!(gc[w - 1].g, "…", "{what}: ellipsis");
                cx.count("ellipsis");
            } else if cut { ensure_eq!(gc, crop(&mc, 0, w), "{what}: clipped line"); cx.count("clipped"); }
            else if n == 1 || wrap == TextWrap::NoWrap { ensure_eq!(gc, mc, "{what}: line that fits"); }
            else { ensure_eq!(trim_cells(&gc), &to_cells(trim(m))[..], "{what}: wrapped line {:?}", g.strip.text()); }
        }
    }
    ensure!(it.next().is_none(), "{what}: {} lines produced, more than expected: {:?}", got.len(), got.iter().map(|l| l.strip.text()).collect::<Vec<_>>());
    cx.sample(|| format!("{what} -> {:?}", got.iter().map(|l| l.strip.text()).collect::<Vec<_>>()));
    if d.tagged { cx.count("markup with tags"); }
    Ok(())
}

fn widget(cx: &mut Cx, use_markup: bool) -> R {
    let fg = rgb(&mut cx.r);
    let bg = rgb(&mut cx.r);
    let base = Style { fg: Some(fg.clone()), bg: Some(bg.clone()), ..Default::default() };
    let link = LinkStyle::default();
    let d = gen_doc(&mut cx.r, &base, &Some(link), &None, use_markup);
    let (w, h) = (1 + cx.r.below(26), 1 + cx.r.below(9));
    let pad = if cx.r.chance(1, 4) { cx.r.below(3) } else { 0 };
    let ha = *cx.r.pick(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
    let va = *cx.r.pick(&[AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom]);
    let ta = *cx.r.pick(&[TextAlign::Start, TextAlign::End, TextAlign::Left, TextAlign::Center, TextAlign::Right, TextAlign::Justify]);
    let mut st = ComputedStyle { color: Some(fg.clone()), background: Some(bg.clone()), ..Default::default() };
    st.content_align_horizontal = ha;
    st.content_align_vertical = va;
    st.text_align = ta;
    st.line_pad = pad as u16;
    let mut s: Static<()> = Static::new(d.markup.clone()).with_markup(use_markup);
    s.set_style(st);
    let (ox, oy) = (cx.r.i32(0, 3), cx.r.i32(0, 2));
    let (cw, ch) = (w as i32 + ox + 2, h as i32 + oy + 2);
    let mut cv = Canvas::new(cw as u16, ch as u16);
    guard(|| s.render(&mut cv, Region::new(ox, oy, w as i32, h as i32)))?;
    let what = format!("Static {:?} (markup {use_markup}) in {w}x{h}, content-align {ha:?} {va:?}, text-align {ta:?}, line-pad {pad}", d.markup);
    cx.distinct(&what);
    cx.obs.evals += 1;
    cx.count("widgets rendered");
    // nothing outside
    for y in 0..ch { for x in 0..cw {
        if x >= ox && x < ox + w as i32 && y >= oy && y < oy + h as i32 { continue; }
        let c = cv.cell_at((y * cw + x) as usize);
        ensure!(c.symbol == " " && c.bg.is_none(), "{what}: drew {:?} outside its region at {x},{y}", c.symbol);
    } }
    let avail = w.saturating_sub(2 * pad).max(1);
    if pad > 0 && w < 2 * pad + 2 { return Ok(()); }
    if d.lines.iter().flatten().any(|g| g.w > avail) { return Ok(()); }
    // expected lines
    let mut lines: Vec<(Vec<G>, bool)> = Vec::new();
    for l in &d.lines { let m = wrap_model(l, avail); let n = m.len(); for (i, p) in m.into_iter().enumerate() { lines.push((p, i + 1 == n)); } }
    let block = lines.iter().map(|l| width(&l.0) + 2 * pad).max().unwrap_or(0).min(w);
    // the whole width for text that is not placed as a block
    let lw = if ha == AlignHorizontal::Left && va == AlignVertical::Top { w } else { block };
    let hoff = match ha { AlignHorizontal::Left => 0, AlignHorizontal::Center => (w - block) / 2, AlignHorizontal::Right => w - block };
    let voff = match va { AlignVertical::Top => 0, AlignVertical::Middle => h.saturating_sub(lines.len()) / 2, AlignVertical::Bottom => h.saturating_sub(lines.len()) };
    for y in 0..h {
        let row: Vec<&textual::canvas::Cell> = (0..w).map(|x| cv.cell_at(((oy + y as i32) * cw + ox + x as i32) as usize)).collect();
        for (x, c) in row.iter().enumerate() { ensure!(c.bg.is_some(), "{what}: cell {x},{y} has no background"); }
        let text: String = row.iter().filter(|c| !c.continuation).map(|c| c.symbol.clone()).collect();
        if y < voff || y - voff >= lines.len() { ensure!(text.trim_matches(' ').is_empty(), "{what}: row {y} should be blank but shows {text:?}"); continue; }
        let (l, end) = &lines[y - voff];
        let t = trim(l);
        let words: String = t.iter().map(|g| g.g.as_str()).collect();
        if ta == TextAlign::Justify && !end {
            // first word at the left edge, last word at the right edge, words in order
            let got: Vec<&str> = text.split(' ').filter(|s| !s.is_empty()).collect();
            let want: Vec<&str> = words.split(' ').filter(|s| !s.is_empty()).collect();
            ensure_eq!(got, want, "{what}: words of justified row {y}");
            cx.count("justified rows");
            if want.len() > 1 && pad == 0 {
                let last = (0..lw).rev().find(|&x| row[hoff + x].symbol != " " || row[hoff + x].continuation);
                ensure_eq!(last.map(|x| x + 1), Some(lw), "{what}: right edge of justified row {y} {text:?}");
            }
            continue;
        }
        // expected left edge of the (padded) line
        let full = width(l) + 2 * pad;
        let inner = match ta { TextAlign::Left | TextAlign::Start | TextAlign::Justify => 0, TextAlign::Center => lw.saturating_sub(full) / 2, TextAlign::Right | TextAlign::End => lw.saturating_sub(full) };
        let start = hoff + inner + pad;
        // cells of the line
        let mut x = start;
        for g in l { 
            if x + g.w > w { break; }
            let c = row[x];
            ensure!(c.symbol == g.g && !c.continuation, "{what}: row {y} is {text:?}; cell {x} shows {:?}, expected {:?}", c.symbol, g.g);
            let wantfg = g.st.fg.as_ref().map(|c| (c.r, c.g, c.b));
            let gotfg = match c.fg { Some(crossterm::style::Color::Rgb { r, g, b }) => Some((r, g, b)), _ => None };
            if !g.ws && g.meta.is_empty() {
                ensure_eq!(gotfg, wantfg, "{what}: colour of {:?} at {x},{y}", g.g);
                ensure!(c.attrs.bold == g.st.bold && c.attrs.italic == g.st.italic && c.attrs.underline == g.st.underline && c.attrs.strike == g.st.strike && c.attrs.reverse == g.st.reverse, "{what}: attributes of {:?} at {x},{y}: {:?}", g.g, c.attrs);
            }
            let gotbg = match c.bg { Some(crossterm::style::Color::Rgb { r, g, b }) => Some((r, g, b)), _ => None };
            if g.meta.is_empty() { ensure_eq!(gotbg, g.st.bg.as_ref().map(|c| (c.r, c.g, c.b)), "{what}: background of {:?} at {x},{y}", g.g); }
            x += g.w;
        }
        let lead: usize = (0..start.min(w)).filter(|&x| row[x].symbol != " " || row[x].continuation).count();
        ensure_eq!(lead, 0, "{what}: text left of the start {start} of row {y} {text:?}");
        ensure_eq!(text.trim_matches(' '), words.trim_matches(' '), "{what}: text of row {y}");
        cx.count("aligned rows compared");
    }
    Ok(())
}
