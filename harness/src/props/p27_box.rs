//! P27: a box is drawn as its style says: borders, titles, padding, text, hatch, tint and outline,
//! cell by cell against a model; and a click on a link triggers the link drawn there.
use super::p19_mouse::cellv;
use crate::core::*;
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use tcss::ComputedStyle;
use tcss::types::border::{BorderEdge, BorderKind as B};
use tcss::types::text::{TextAlign, TextOverflow, TextStyle, TextWrap};
use tcss::types::{AlignHorizontal as AH, AlignVertical as AV, RgbaColor, Visibility};
use textual::canvas::{Canvas, Region, TextAttributes};
use textual::content::Content;
use textual::segment::Style;
use textual::strip::Strip;
use textual::{Container, Label, Static, Widget};

pub fn prop() -> Prop {
    Prop { id: "P27", quick: 80_000, thorough: 6_000_000, run, workers: 8,
        rule: "each case is one Static, Label, Container, Grid or scroll container with a random computed style: every border kind per edge or uniform, edge colours (translucent ones too) or none, outlines, titles and subtitles (plain, marked up, wide, empty) with alignment, colours and text styles, padding, text with wrapping, alignment, links and line padding, opacity, text opacity, tint, background tint, hatch; drawn at 1-4 sizes from 1x1 to 40x12 on a canvas with known cells; every cell is compared with a model of the box, then the pointer visits cells of the box and the hover state, the action and the redrawn box are compared too; distinct = distinct (style, texts, sizes)",
        assumptions: &["wrapping of text and parsing of markup are taken from the content module (decided by P01 and P08), blending of two colours from the colour module (P02), blending into the canvas from the canvas (P09)", "left open: blank glyphs of borders and labels under a hatch, the label of a box whose only border lies on the opposite side, the ellipsis of a label of which nothing fits"] }
}

const KINDS: &[B] = &[B::None, B::Ascii, B::Blank, B::Block, B::Double, B::Dashed, B::Heavy, B::Hidden, B::Hkey, B::Outer, B::Inner, B::Panel, B::Solid, B::Round, B::Tall, B::Thick, B::Vkey, B::Wide];

/// the nine glyphs of a kind of border, row by row
fn glyphs(k: B) -> [[char; 3]; 3] {
    let t = match k {
        B::None | B::Hidden | B::Blank => "         ",
        B::Ascii => "+-+| |+-+", B::Block => "▀▀▀█ █▄▄▄", B::Double => "╔═╗║ ║╚═╝", B::Dashed => "┏╍┓╏ ╏┗╍┛", B::Heavy => "┏━┓┃ ┃┗━┛",
        B::Hkey => "▔▔▔   ▁▁▁", B::Outer => "▛▀▜▌ ▐▙▄▟", B::Inner => "▗▄▖▐ ▌▝▀▘", B::Panel => "▊█▎▊ ▎▊▁▎", B::Solid => "┌─┐│ │└─┘", B::Round => "╭─╮│ │╰─╯",
        B::Tall => "▊▔▎▊ ▎▊▁▎", B::Thick => "█▀██ ██▄█", B::Vkey => "▏ ▕▏ ▕▏ ▕", B::Wide => "▁▁▁▎ ▊▔▔▔",
    };
    let v: Vec<char> = t.chars().collect();
    [[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]]
}
/// how each glyph is coloured: i edge on the box, o edge on the parent, r parent on edge, p box on edge
fn zones(k: B) -> [[char; 3]; 3] {
    let t = match k { B::Inner => "ooooooooo", B::Block => "oooiiiooo", B::Tall | B::Panel => "rioriorio", B::Wide => "oooiopooo", _ => "iiiiiiiii" };
    let v: Vec<char> = t.chars().collect();
    [[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]]
}

/// one cell of the model: what is put there, and which part of the box it belongs to
#[derive(Clone, Debug, PartialEq)]
struct C { s: String, w: usize, st: Style, link: Option<String>, open: bool, edge: bool }
fn ch(c: char, st: &Style) -> C { C { s: c.to_string(), w: 1, st: st.clone(), link: None, open: false, edge: false } }
fn edge(c: char, st: &Style) -> C { C { edge: true, ..ch(c, st) } }
fn cont(c: &C) -> C { C { s: String::new(), w: 0, ..c.clone() } }
fn blanks(n: usize, st: &Style) -> Vec<C> { vec![ch(' ', st); n] }
/// a strip as one entry per cell
fn cells(s: &Strip) -> Vec<C> {
    use unicode_segmentation::UnicodeSegmentation;
    let mut v = vec![];
    for seg in s.segments() {
        let st = seg.style().cloned().unwrap_or_default();
        for g in seg.text().graphemes(true) {
            let w = crate::gen_text::dwidth(g);
            if w == 0 { continue; }
            let c = C { s: g.to_string(), w, st: st.clone(), link: seg.get_meta("@click").map(|s| s.to_string()), open: false, edge: false };
            v.push(c.clone());
            for _ in 1..w { v.push(cont(&c)); }
        }
    }
    v
}
/// cells a..b of a row; a wide character cut in two leaves blanks
fn cut(v: &[C], a: usize, b: usize) -> Vec<C> {
    let b = b.min(v.len());
    if a >= b { return vec![]; }
    let mut out = v[a..b].to_vec();
    for c in out.iter_mut() { if c.w == 0 { c.s = " ".into(); c.w = 1; } else { break; } }
    let n = out.len();
    for i in 0..n { if out[i].w > 1 && i + out[i].w > n { let w = out[i].w; for j in i..n.min(i + w) { out[j].s = " ".into(); out[j].w = 1; } } }
    out
}
fn fit(v: &[C], n: usize, st: &Style) -> Vec<C> { let mut o = cut(v, 0, n); while o.len() < n { o.push(ch(' ', st)); } o }

/// colour `c` of a box of that opacity over its parent
fn fade(c: &Option<RgbaColor>, s: &ComputedStyle, o: f64) -> Option<RgbaColor> {
    match (c, &s.inherited_background) { (Some(c), Some(b)) => Some(c.blend_toward(b, o)), (Some(c), None) => Some(c.with_opacity(o)), _ => None }
}
fn solid_edges(b: &tcss::types::border::Border) -> [bool; 4] {
    let on = |k: B, skip: B| !matches!(k, B::None | B::Hidden) && k != skip;
    [on(b.top.kind, B::Vkey), on(b.right.kind, B::Hkey), on(b.bottom.kind, B::Vkey), on(b.left.kind, B::Hkey)]
}
/// the glyph of an edge, coloured
fn glyph(e: &BorderEdge, col: &Option<RgbaColor>, row: usize, at: usize, s: &ComputedStyle) -> C {
    let (own, par) = (s.effective_background(), s.inherited_background.clone());
    let (bg, reverse) = match zones(e.kind)[row][at] { 'i' => (own, false), 'o' => (par, false), 'r' => (par, true), _ => (own, true) };
    edge(glyphs(e.kind)[row][at], &Style { fg: col.clone(), bg, reverse, ..Default::default() })
}

struct Spec { s: ComputedStyle, text: String, title: String, sub: String, kind: usize, markup: bool }

/// `n` cells of border with the label in it
fn labelled(fill: &C, label: &[C], n: usize, align: AH, gap: bool) -> Vec<C> {
    let g = if gap { 1 } else { 0 };
    let room = n.saturating_sub(2);
    let sp = label.first().map(|c| c.st.clone()).unwrap_or_default();
    let space = C { open: false, edge: true, ..ch(' ', &sp) };
    let mut v = vec![];
    if label.len() + 2 * g > room {
        v.push(fill.clone());
        if gap { v.push(space.clone()); }
        let part = cut(label, 0, room.saturating_sub(1 + 2 * g));
        v.extend(part.iter().cloned());
        let mut dots = ch('…', &part.last().map(|c| c.st.clone()).unwrap_or_default());
        dots.edge = true; dots.open = part.is_empty();
        v.push(dots);
        if gap { v.push(space); }
        while v.len() < n { v.push(fill.clone()); }
        return cut(&v, 0, n);
    }
    let rest = n - label.len() - 2 * g;
    let left = match align { AH::Left => 1, AH::Center => rest / 2, AH::Right => rest - 1 };
    for _ in 0..left { v.push(fill.clone()); }
    if gap { v.push(space.clone()); }
    v.extend(label.iter().cloned());
    if gap { v.push(space); }
    while v.len() < n { v.push(fill.clone()); }
    v
}

fn model(p: &Spec, w: usize, h: usize, hover: &Option<String>) -> Vec<Vec<C>> {
    let s = &p.s;
    let own = s.effective_background();
    let pad = own.as_ref().map(|b| Style::with_bg(b.clone())).unwrap_or_default();
    let [top, right, bottom, left] = solid_edges(&s.border);
    let any = top || right || bottom || left;
    let (pl, pr, pt, pb) = (s.padding.left.value as usize, s.padding.right.value as usize, s.padding.top.value as usize, s.padding.bottom.value as usize);
    let (bt, bb, bl, br) = (top as usize, bottom as usize, left as usize, right as usize);
    let o2 = s.opacity * s.opacity;
    let col = |e: &BorderEdge| fade(&e.color.clone().or(s.color.clone()), s, o2);
    // labels
    let label = |t: &str, c: &Option<RgbaColor>, e: &BorderEdge, b: &Option<RgbaColor>, ts: &TextStyle| -> Option<Vec<C>> {
        if !any || t.is_empty() { return None; }
        let st = Style { fg: fade(&c.clone().or(e.color.clone()).or(s.color.clone()), s, s.opacity), bg: b.clone().or(own.clone()), bold: ts.bold, dim: ts.dim, italic: ts.italic, underline: ts.underline, strike: ts.strike, reverse: ts.reverse };
        let line = Content::from_markup(t).unwrap_or_else(|_| Content::new(t)).with_style(st).wrap(usize::MAX).into_iter().next();
        line.map(|l| cells(&l).into_iter().map(|c| C { link: None, edge: true, ..c }).collect())
    };
    let title = label(&p.title, &s.border_title_color, &s.border.top, &s.border_title_background, &s.border_title_style);
    let sub = label(&p.sub, &s.border_subtitle_color, &s.border.bottom, &s.border_subtitle_background, &s.border_subtitle_style);
    // the text
    let (iw, ih) = (w.saturating_sub(bl + br + pl + pr), h.saturating_sub(bt + bb + pt + pb));
    let (rt, rb) = ((!top && title.is_some()) as usize, (!bottom && sub.is_some()) as usize);
    let ch_ = ih.saturating_sub(rt + rb);
    let mut text: Vec<Vec<C>> = vec![];
    if p.kind < 2 && iw > 0 && ch_ > 0 {
        let fg = if s.auto_color {
            own.as_ref().map(|b| { let c = b.get_contrasting_color(s.color.as_ref().map(|c| c.a).unwrap_or(1.0)); match &s.inherited_background { Some(i) => c.blend_toward(i, s.opacity), None => c.with_opacity(s.opacity) } })
        } else if s.color.is_none() && s.opacity < 1.0 { s.inherited_background.as_ref().map(|b| RgbaColor::rgb(255, 255, 255).blend_toward(b, s.opacity)) } else { fade(&s.color, s, s.opacity) };
        let t = &s.text_style;
        let st = Style { fg, bg: own.clone(), bold: t.bold, dim: t.dim, italic: t.italic, underline: t.underline, strike: t.strike, reverse: t.reverse };
        let plain = Style { fg: st.fg.clone(), bg: st.bg.clone(), ..Default::default() };
        let c = if p.markup { Content::from_markup(&p.text).unwrap_or_else(|_| Content::new(&p.text)) } else { Content::new(&p.text) };
        let lines = c.with_style(st.clone()).with_link_style(s.link.clone()).with_hovered_action(hover.clone()).wrap_with_line_end_overflow(iw.saturating_sub(2 * s.line_pad as usize).max(1), s.text_overflow, s.text_wrap);
        let lp = s.line_pad as usize;
        let lines: Vec<(Vec<C>, bool)> = lines.iter().map(|l| { let mut v = blanks(lp, &st); v.extend(cells(&l.strip)); v.extend(blanks(lp, &st)); (v, l.line_end) }).collect();
        let n = lines.len();
        let above = match s.content_align_vertical { AV::Top => 0, AV::Middle => ch_.saturating_sub(n) / 2, AV::Bottom => ch_.saturating_sub(n) };
        let block = lines.iter().map(|l| l.0.len()).max().unwrap_or(0).min(iw);
        let before = match s.content_align_horizontal { AH::Left => 0, AH::Center => (iw - block) / 2, AH::Right => iw - block };
        let lw = if s.content_align_horizontal == AH::Left && s.content_align_vertical == AV::Top { iw } else { block };
        for _ in 0..above { text.push(blanks(iw, &plain)); }
        for (l, end) in lines.iter().take(ch_ - above) {
            let l = cut(l, 0, lw);
            let gap = lw - l.len();
            let mut v = blanks(before, &plain);
            let stretch = s.text_align == TextAlign::Justify && !end;
            let spaces = l.iter().filter(|c| c.s == " ").count();
            if stretch && spaces > 0 && gap > 0 {
                // the extra cells go to the gaps one by one, from the last
                let mut k = 0;
                for c in &l {
                    v.push(c.clone());
                    if c.s == " " {
                        let i = spaces - 1 - k;
                        for _ in 0..gap / spaces + (i < gap % spaces) as usize { v.push(c.clone()); }
                        k += 1;
                    }
                }
            } else {
                let b = match s.text_align { TextAlign::Center => gap / 2, TextAlign::Right | TextAlign::End => gap, _ => 0 };
                v.extend(blanks(b, &plain)); v.extend(l); v.extend(blanks(gap - b, &plain));
            }
            text.push(fit(&v, iw, &plain));
        }
        while text.len() < ch_ { text.push(blanks(iw, &plain)); }
        if s.text_opacity < 1.0 {
            for c in text.iter_mut().flatten() {
                if s.text_opacity <= 0.0 { if c.w != 1 || c.s != " " { c.s = " ".into(); c.w = 1; } c.st.fg = None; continue; }
                let bg = c.st.bg.clone().or(st.bg.clone());
                let fg = c.st.fg.clone().or(bg.as_ref().map(|_| RgbaColor::rgb(255, 255, 255)));
                c.st.fg = match (fg, bg) { (Some(f), Some(b)) => Some(f.blend_toward(&b, s.text_opacity)), (Some(f), None) => Some(f.with_opacity(s.text_opacity)), _ => None };
            }
        }
    }
    let mut rows = vec![];
    for y in 0..h {
        let inside = y >= bt && y + bb < h;
        let mut row: Vec<C> = vec![];
        let horizontal = |e: &BorderEdge, r: usize, l: &Option<Vec<C>>, a: AH| -> Vec<C> {
            let c = col(e);
            let fill = glyph(e, &c, r, 1, s);
            if left && right {
                let mut v = vec![glyph(e, &c, r, 0, s)];
                if w > 2 { match l { Some(l) => v.extend(labelled(&fill, l, w - 2, a, true)), None => v.extend(vec![fill; w - 2]) } }
                v.push(glyph(e, &c, r, 2, s));
                v
            } else { match l { Some(l) => labelled(&fill, l, w, a, false), None => vec![fill; w] } }
        };
        if y == 0 && top { row = horizontal(&s.border.top, 0, &title, s.border_title_align); }
        else if y + 1 == h && bottom { row = horizontal(&s.border.bottom, 2, &sub, s.border_subtitle_align); }
        else {
            let inner = w.saturating_sub(bl + br);
            if left { row.push(glyph(&s.border.left, &col(&s.border.left), 1, 0, s)); }
            let lab = if !top && y == bt && (left || right) && title.is_some() { title.as_ref().map(|t| (t, s.border_title_align)) } else if !bottom && y + 1 + bb == h && (left || right) { sub.as_ref().map(|t| (t, s.border_subtitle_align)) } else { None };
            match lab {
                Some((t, a)) => {
                    let e = if left { &s.border.left } else { &s.border.right };
                    let fill = C { open: false, ..glyph(e, &col(e), 1, 1, s) };
                    row.extend(labelled(&fill, t, inner, a, true));
                }
                None => {
                    let (a, b) = (pl.min(inner), pr.min(inner - pl.min(inner)));
                    row.extend(blanks(a, &pad));
                    let k = y.checked_sub(bt + pt + rt).filter(|_| y + bb + pb + rb < h);
                    row.extend(match k.and_then(|k| text.get(k)) { Some(t) => fit(t, inner - a - b, &pad), None => blanks(inner - a - b, &pad) });
                    row.extend(blanks(b, &pad));
                }
            }
            if right { row.push(glyph(&s.border.right, &col(&s.border.right), 1, 2, s)); }
        }
        // the outline lies over everything
        let [ot, or, ob, ol] = solid_edges(&s.outline);
        let oc = |e: &BorderEdge| e.color.clone().or(s.color.clone());
        let over = |e: &BorderEdge, r: usize| { let c = oc(e); let mut v = vec![]; if ol { v.push(glyph(e, &c, r, 0, s)); } for _ in 0..w.saturating_sub(ol as usize + or as usize) { v.push(glyph(e, &c, r, 1, s)); } if or { v.push(glyph(e, &c, r, 2, s)); } v };
        if y == 0 && ot { row = over(&s.outline.top, 0); }
        else if y + 1 == h && ob { row = over(&s.outline.bottom, 2); }
        else if ol || or {
            let n = w.saturating_sub(ol as usize + or as usize);
            let mid = fit(&cut(&row, ol as usize, ol as usize + n), n, &pad);
            row = vec![];
            if ol { row.push(glyph(&s.outline.left, &oc(&s.outline.left), 1, 0, s)); }
            row.extend(mid);
            if or { row.push(glyph(&s.outline.right, &oc(&s.outline.right), 1, 2, s)); }
        }
        let mut row = cut(&row, 0, w);
        if p.kind < 2 {
            if let (Some(ht), true) = (&s.hatch, inside) {
                for c in row.iter_mut() { if c.s == " " && c.w == 1 { if c.edge { c.open = true; } let mut hc = ht.color.clone(); hc.a *= ht.opacity; c.s = ht.pattern.char().to_string(); c.st.fg = Some(hc); } }
            }
            if let Some(t) = &s.tint { if t.a > 0.0 { for c in row.iter_mut() { c.st.fg = c.st.fg.as_ref().map(|c| c.tint(t)); c.st.bg = c.st.bg.as_ref().map(|c| c.tint(t)); } } }
        }
        rows.push(row);
    }
    rows
}

fn colour(r: &mut Rng) -> RgbaColor {
    let v = |r: &mut Rng| *r.pick(&[0u8, 40, 127, 128, 200, 255]);
    let (a, b, c) = (v(r), v(r), v(r));
    RgbaColor::rgba(a, b, c, if r.chance(3, 4) { 1.0 } else { *r.pick(&[0.0f32, 0.25, 0.5, 0.9]) })
}
fn maybe(r: &mut Rng, n: u32, d: u32) -> Option<RgbaColor> { if r.chance(n, d) { Some(colour(r)) } else { None } }
fn attrs(r: &mut Rng) -> TextStyle { let mut t = TextStyle::default(); t.bold = r.chance(1, 4); t.dim = r.chance(1, 8); t.italic = r.chance(1, 6); t.underline = r.chance(1, 6); t.strike = r.chance(1, 8); t.reverse = r.chance(1, 8); t }
fn edges(r: &mut Rng) -> tcss::types::border::Border {
    let e = |r: &mut Rng| BorderEdge { kind: *r.pick(KINDS), color: maybe(r, 2, 3) };
    match r.below(10) {
        0 | 1 => Default::default(),
        2..=5 => { let e = e(r); tcss::types::border::Border { top: e.clone(), right: e.clone(), bottom: e.clone(), left: e } }
        6 => { let k = *r.pick(KINDS); let mut f = || BorderEdge { kind: k, color: maybe(r, 2, 3) }; let (a, b, c, d) = (f(), f(), f(), f()); tcss::types::border::Border { top: a, right: b, bottom: c, left: d } }
        7 => { let mut b = tcss::types::border::Border::default(); match r.below(4) { 0 => b.top = e(r), 1 => b.right = e(r), 2 => b.bottom = e(r), _ => b.left = e(r) } b }
        8 => { let (x, y) = (e(r), e(r)); if r.bool() { tcss::types::border::Border { top: x.clone(), bottom: y, ..Default::default() } } else { tcss::types::border::Border { left: x.clone(), right: y, ..Default::default() } } }
        _ => { let (a, b, c, d) = (e(r), e(r), e(r), e(r)); tcss::types::border::Border { top: a, right: b, bottom: c, left: d } }
    }
}
fn words(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n { if i > 0 { s.push(if r.chance(1, 8) { '\n' } else { ' ' }); } s.push_str(r.pick::<&str>(&["a", "to", "box", "word", "日本", "é", "longerword", "x", "漢", "I", "ab-cd"])); }
    s
}
fn title(r: &mut Rng) -> String {
    match r.below(7) { 0..=2 => String::new(), 3 => format!("[b]{}[/b]", r.pick::<&str>(&["t", "Ti tle", "日本"])), 4 => r.pick::<&str>(&["A", "Ti", "Title", "A rather long title", "日本語", "日本語の題"]).to_string(), _ => { let n = 1 + r.below(3); words(r, n).replace('\n', " ") } }
}
fn sc(n: usize) -> tcss::types::Scalar { tcss::types::Scalar::cells(n as f64) }

fn run(cx: &mut Cx) -> R {
    let r = &mut cx.r;
    let mut s = ComputedStyle::default();
    s.color = maybe(r, 2, 3);
    s.background = maybe(r, 2, 3);
    s.inherited_background = maybe(r, 4, 5).map(|c| RgbaColor { a: 1.0, ..c });
    s.auto_color = r.chance(1, 6);
    s.opacity = if r.chance(3, 4) { 1.0 } else { *r.pick(&[0.0, 0.3, 0.5, 0.99]) };
    s.text_opacity = if r.chance(5, 6) { 1.0 } else { *r.pick(&[0.0, 0.3, 0.5, 0.99]) };
    s.tint = maybe(r, 1, 8);
    s.background_tint = maybe(r, 1, 8);
    s.border = edges(r);
    if r.chance(1, 5) { s.outline = edges(r); }
    for (i, k) in [4, 4, 5, 5].iter().enumerate() { if r.chance(1, 3) { let n = sc(r.below(*k)); match i { 0 => s.padding.left = n, 1 => s.padding.right = n, 2 => s.padding.top = n, _ => s.padding.bottom = n } } }
    s.border_title_align = *r.pick(&[AH::Left, AH::Center, AH::Right]);
    s.border_subtitle_align = *r.pick(&[AH::Left, AH::Center, AH::Right]);
    s.border_title_color = maybe(r, 1, 3);
    s.border_subtitle_color = maybe(r, 1, 3);
    s.border_title_background = maybe(r, 1, 4);
    s.border_subtitle_background = maybe(r, 1, 4);
    if r.chance(1, 3) { s.border_title_style = attrs(r); }
    if r.chance(1, 3) { s.border_subtitle_style = attrs(r); }
    if r.chance(1, 2) { s.text_style = attrs(r); }
    s.text_align = *r.pick(&[TextAlign::Left, TextAlign::Start, TextAlign::Center, TextAlign::Right, TextAlign::End, TextAlign::Justify]);
    s.text_overflow = *r.pick(&[TextOverflow::Fold, TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis]);
    s.text_wrap = *r.pick(&[TextWrap::Wrap, TextWrap::Wrap, TextWrap::NoWrap]);
    if r.bool() { s.content_align_horizontal = *r.pick(&[AH::Left, AH::Center, AH::Right]); s.content_align_vertical = *r.pick(&[AV::Top, AV::Middle, AV::Bottom]); }
    if r.chance(1, 6) { s.line_pad = r.below(4) as u16; }
    if r.chance(1, 6) { s.hatch = Some(tcss::types::Hatch { pattern: r.pick(&[tcss::types::HatchPattern::Left, tcss::types::HatchPattern::Cross, tcss::types::HatchPattern::Custom('x')]).clone(), color: colour(r), opacity: *r.pick(&[1.0f32, 0.5]) }); }
    s.link.color = maybe(r, 1, 3); s.link.background_hover = maybe(r, 1, 3); s.link.style = attrs(r); s.link.style_hover = attrs(r);
    if r.chance(1, 30) { s.visibility = Visibility::Hidden; }
    let kind = *r.pick(&[0, 0, 0, 0, 0, 1, 2, 2, 3, 4, 5]);
    let markup = r.chance(4, 5);
    let nw = r.below(9);
    let mut text = words(r, nw);
    if r.bool() { let (a, b) = (words(r, 2), r.below(3)); text = format!("{text} [@click=act{b}]{a}[/] {}[@click=other]z z[/]", words(r, 2)); }
    let [t, ri, b, l] = solid_edges(&s.border);
    // a label on a box whose only border is the opposite one is left open
    let side = l || ri;
    let ti = if t || side { title(r) } else { String::new() };
    let su = if b || side { title(r) } else { String::new() };
    let (ti, su) = if kind == 3 { (String::new(), String::new()) } else { (ti, su) };
    let p = Spec { s, text, title: ti, sub: su, kind, markup };
    let mut wd: Box<dyn Widget<()>> = match kind {
        0 => Box::new(Static::new(p.text.clone()).with_markup(p.markup).with_border_title(p.title.clone()).with_border_subtitle(p.sub.clone())),
        1 => Box::new(Label::new(p.text.clone()).with_markup(p.markup).with_border_title(p.title.clone()).with_border_subtitle(p.sub.clone())),
        2 => Box::new(Container::new(vec![]).with_border_title(p.title.clone()).with_border_subtitle(p.sub.clone())),
        3 => Box::new(textual::Grid::new(vec![])),
        4 => Box::new(textual::Vertical::new(vec![]).with_border_title(p.title.clone()).with_border_subtitle(p.sub.clone())),
        _ => Box::new(textual::VerticalScroll::new(vec![]).with_border_title(p.title.clone()).with_border_subtitle(p.sub.clone())),
    };
    wd.set_style(p.s.clone());
    cx.t(format!("kind {kind} text {:?} title {:?} sub {:?} markup {markup}\n{:#?}", p.text, p.title, p.sub, p.s));
    let mut hv = hash(&(format!("{:?}", p.s), &p.text, &p.title, &p.sub, kind));
    let mut hover: Option<String> = None;
    for _ in 0..1 + cx.r.below(4) {
        let (w, h) = match cx.r.below(4) { 0 => (1 + cx.r.below(7), 1 + cx.r.below(5)), 1 => (1 + cx.r.below(14), 1 + cx.r.below(12)), _ => (4 + cx.r.below(37), 1 + cx.r.below(12)) };
        hv = hash(&(hv, w, h));
        let (x0, y0) = (cx.r.below(3), cx.r.below(3));
        let reg = Region { x: x0 as i32, y: y0 as i32, width: w as i32, height: h as i32 };
        let (cw, chh) = (w + x0 + 1, h + y0 + 1);
        cx.t(format!("size {w}x{h} at {x0},{y0} hover {hover:?}"));
        let blank = || { let mut c = Canvas::new(cw as u16, chh as u16); for y in 0..chh { c.put_str(0, y as i32, &"~".repeat(cw), Some(RgbaColor::rgb(1, 2, 3)), Some(RgbaColor::rgb(90, 60, 30)), TextAttributes { italic: true, ..Default::default() }); } c };
        let mut got = blank();
        wd.render(&mut got, reg);
        // VerticalScroll and HorizontalScroll drop their labels (known finding)
        let bald = Spec { s: p.s.clone(), text: p.text.clone(), title: String::new(), sub: String::new(), kind, markup };
        let mut tries = vec![&p];
        if kind == 5 && (!p.title.is_empty() || !p.sub.is_empty()) { tries.push(&bald); }
        let (mut wrong, mut first): (Option<String>, Option<String>) = (None, None);
        let hidden = p.s.visibility == Visibility::Hidden;
        let [a, b, c, d] = solid_edges(&p.s.border);
        let bare = matches!(p.kind, 2 | 4) && !(a || b || c || d) && p.s.effective_background().is_none();
        let shown = !hidden && !bare;
        let mut m = vec![];
        for (k, q) in tries.iter().enumerate() {
        m = model(q, w, h, &hover);
        let mut want = blank();
        if shown { for (y, row) in m.iter().enumerate() {
            ensure_eq!(row.len(), w, "harness: model row of another width");
            for (x, c) in row.iter().enumerate() { if c.w > 0 {
                let s = &c.st;
                want.put_str((x0 + x) as i32, (y0 + y) as i32, &c.s, s.fg.clone(), s.bg.clone(), TextAttributes { bold: s.bold, dim: s.dim, italic: s.italic, underline: s.underline, strike: s.strike, reverse: s.reverse });
            } }
        } }
        let (g, wv) = (cellv(&got), cellv(&want));
        for i in 0..g.len() {
            let (x, y) = (i % cw, i / cw);
            let inside = shown && x >= x0 && y >= y0 && x < x0 + w && y < y0 + h;
            if inside && m[y - y0][x - x0].open { cx.count("cells left open"); continue; }
            // the colour of the ink of a blank cell is not seen
            let eye = |c: &textual::canvas::Cell| { let mut c = c.clone(); if c.symbol == " " && !c.attrs.reverse { c.attrs.bold = false; c.attrs.dim = false; c.attrs.italic = false; if !c.attrs.underline && !c.attrs.strike { c.fg = None; } } c };
            if eye(&g[i]) != eye(&wv[i]) {
                let show = |v: &[textual::canvas::Cell]| (0..chh).map(|y| (0..cw).map(|x| if v[y * cw + x].continuation { String::new() } else { v[y * cw + x].symbol.clone() }).collect::<String>()).collect::<Vec<_>>().join("\n");
                let e = format!("cell {x},{y}: drawn {:?}, the style says {:?}\ndrawn:\n{}\nexpected:\n{}", g[i], wv[i], show(&g), show(&wv));
                wrong = Some(e);
                break;
            }
        }
        if k == 0 { first = wrong.clone(); }
        if k == 1 && wrong.is_none() && first.is_some() { *cx.obs.known.entry("scroll-border-label".into()).or_default() += 1; }
        if wrong.is_none() { break; }
        if k + 1 < tries.len() { wrong = None; }
        }
        if let Some(e) = wrong { ensure!(false, "{}", first.unwrap_or(e)); }
        cx.add("cells compared", (w * h) as u64);
        if shown { cx.count("boxes drawn"); if a || b || c || d { cx.count("bordered boxes"); } if !p.title.is_empty() || !p.sub.is_empty() { cx.count("boxes with labels"); } }
        // the pointer
        if kind == 0 && shown {
            for _ in 0..6 {
                let (x, y) = if cx.r.chance(2, 3) { let l: Vec<(usize, usize)> = m.iter().enumerate().flat_map(|(y, r)| r.iter().enumerate().filter(|(_, c)| c.link.is_some()).map(move |(x, _)| (x, y))).collect(); if l.is_empty() { break; } *cx.r.pick(&l) } else { (cx.r.below(w), cx.r.below(h)) };
                let ms = |k| MouseEvent { kind: k, column: (x0 + x) as u16, row: (y0 + y) as u16, modifiers: KeyModifiers::NONE };
                let c = &m[y][x];
                let [ot, or, ob, ol] = solid_edges(&p.s.outline);
                let over = (ot && y == 0) || (ob && y + 1 == h) || (ol && x == 0) || (or && x + 1 == w);
                if over { continue; }
                wd.on_mouse(ms(MouseEventKind::Moved), reg);
                let st = wd.as_any().and_then(|a| a.downcast_ref::<Static<()>>()).ok_or("harness: not a Static")?;
                ensure_eq!(st.hovered_link(), c.link.clone(), "the link under the pointer at {x},{y}");
                hover = c.link.clone();
                ensure!(wd.take_pending_action().is_none(), "moving the pointer triggered an action");
                wd.on_mouse(ms(MouseEventKind::Down(MouseButton::Left)), reg);
                ensure_eq!(wd.take_pending_action(), c.link.clone(), "the action of a click at {x},{y}");
                ensure!(wd.take_pending_action().is_none(), "the action is delivered twice");
                cx.count("pointer probes"); if c.link.is_some() { cx.count("probes on links"); }
            }
            if cx.r.chance(1, 4) { wd.clear_hover(); hover = None; }
        }
    }
    cx.distinct(&hv);
    Ok(())
}
