//! P30: text widgets ask for exactly the room their text needs, and show all of it in that room.
use super::p08_content::{Doc, G, fold_model, gen_doc, trim, width, wrap_model};
use super::p19_mouse::{cellv, theme};
use crate::core::*;
use crate::gen_text as gt;
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use std::collections::VecDeque;
use tcss::ComputedStyle;
use tcss::types::border::{BorderEdge, BorderKind as B};
use tcss::types::geometry::Unit;
use tcss::types::{BoxSizing, RgbaColor, Scalar, TextOverflow, TextWrap};
use textual::canvas::{Canvas, Cell, Region, TextAttributes};
use textual::segment::Style;
use textual::style_resolver::resolve_styles;
use textual::widget::app_widget::AppWidget;
use textual::{Button, Container, Header, Label, Placeholder, PlaceholderVariant, Ruler, Screen, Static, Tooltip, Widget};

pub fn prop() -> Prop {
    Prop { id: "P30", quick: 60_000, thorough: 4_000_000, run, workers: 8,
        rule: "each case is one Static, Label or Button (random text with wide characters, markup, several lines; padding, borders, line padding, wrapping and overflow modes, box sizing, widths and heights in every kind of unit), one column of such widgets and placeholders laid out in a container, one Placeholder (label, id, size or text variant; clicks), one Ruler, one Tooltip (text, limits on its size, position or pointer, screen size) or one Header (title, subtitle, screen width, changes of both, pointer on the icon). The size asked for and the height asked for at up to 4 widths are compared with a model of the text; the widget is drawn in exactly that room and the text read back from the cells; distinct = distinct (kind, text, style, sizes)",
        assumptions: &["where a line may break is decided by P08's model", "what a border looks like is decided by P27; how boxes are arranged by P12", "left out: hkey and vkey borders (their blank sides are counted), titles on boxes without that border side, texts with a character wider than the room"] }
}

type W = Box<dyn Widget<()>>;
fn sc(n: usize) -> Scalar { Scalar::cells(n as f64) }
fn rgb(r: &mut Rng) -> RgbaColor { RgbaColor::rgb(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8) }
const EDGES: &[B] = &[B::None, B::Hidden, B::None, B::Ascii, B::Blank, B::Block, B::Double, B::Dashed, B::Heavy, B::Outer, B::Inner, B::Panel, B::Solid, B::Round, B::Tall, B::Thick, B::Wide];
struct Chrome { l: usize, r: usize, t: usize, b: usize }
impl Chrome { fn w(&self) -> usize { self.l + self.r } fn h(&self) -> usize { self.t + self.b } }
fn pads(r: &mut Rng, s: &mut ComputedStyle) -> Chrome {
    let mut n = |k: usize| if r.bool() { 0 } else { r.below(k) };
    let c = Chrome { l: n(5), r: n(5), t: n(4), b: n(4) };
    (s.padding.left, s.padding.right, s.padding.top, s.padding.bottom) = (sc(c.l), sc(c.r), sc(c.t), sc(c.b));
    c
}
fn chrome(r: &mut Rng, s: &mut ComputedStyle) -> Chrome {
    let mut c = pads(r, s);
    if r.bool() {
        let one = *r.pick(EDGES);
        let uniform = r.bool();
        for i in 0..4 {
            let kind = if uniform { one } else { *r.pick(EDGES) };
            let e = BorderEdge { kind, color: Some(rgb(r)) };
            let n = !matches!(kind, B::None | B::Hidden) as usize;
            match i { 0 => { s.border.top = e; c.t += n } 1 => { s.border.bottom = e; c.b += n } 2 => { s.border.left = e; c.l += n } _ => { s.border.right = e; c.r += n } }
        }
    }
    c
}
fn rows(lines: &[Vec<G>], w: usize, wrap: TextWrap, over: TextOverflow) -> Vec<Vec<G>> {
    lines.iter().flat_map(|l| match (wrap, over) { (TextWrap::Wrap, _) => wrap_model(l, w), (_, TextOverflow::Fold) => fold_model(l, w), _ => vec![l.clone()] }).collect()
}
fn text(g: &[G]) -> String { g.iter().map(|g| g.g.as_str()).collect() }
/// the text of the cells x0..x1 of one row
fn read(c: &[Cell], cw: usize, x0: usize, x1: usize, y: usize) -> String { c[y * cw + x0..y * cw + x1].iter().filter(|c| !c.continuation).map(|c| c.symbol.as_str()).collect() }
fn doc(r: &mut Rng, markup: bool) -> Doc { gen_doc(r, &Style::default(), &None, &None, markup) }

fn run(cx: &mut Cx) -> R {
    match cx.case % 8 { 0..=2 => label(cx), 3 | 4 => column(cx), 5 => placeholder(cx), 6 => tooltip(cx), _ => if cx.r.chance(1, 4) { ruler(cx) } else { header(cx) } }
}

fn label(cx: &mut Cx) -> R {
    let kind = cx.r.below(3);
    let markup = kind < 2 && cx.r.chance(1, 3);
    let d = doc(&mut cx.r, markup);
    let mut s = ComputedStyle { color: Some(rgb(&mut cx.r)), background: Some(rgb(&mut cx.r)), ..Default::default() };
    let ch = chrome(&mut cx.r, &mut s);
    s.line_pad = if cx.r.chance(1, 4) { cx.r.below(4) as u16 } else { 0 };
    s.box_sizing = if cx.r.bool() { BoxSizing::BorderBox } else { BoxSizing::ContentBox };
    s.text_wrap = if cx.r.chance(2, 3) { TextWrap::Wrap } else { TextWrap::NoWrap };
    s.text_overflow = *cx.r.pick(&[TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis]);
    let lp = s.line_pad as usize;
    let mut dim = |r: &mut Rng| match r.below(8) {
        0..=2 => None, 3 | 4 => Some(Scalar { value: 0.0, unit: Unit::Auto }), 5 => Some(sc(r.below(60))),
        _ => Some(Scalar { value: (1 + r.below(100)) as f64, unit: *r.pick(&[Unit::Percent, Unit::Fraction, Unit::Width, Unit::Height, Unit::ViewWidth, Unit::ViewHeight]) }),
    };
    s.width = dim(&mut cx.r);
    s.height = dim(&mut cx.r);
    // labels on a side with a border take no room
    let top = matches!(s.border.top.kind, B::None | B::Hidden);
    let bot = matches!(s.border.bottom.kind, B::None | B::Hidden);
    let (title, sub) = (!top && cx.r.chance(1, 3), !bot && cx.r.chance(1, 3));
    let what = format!("{} {:?} (markup {markup}), padding+border {}/{}/{}/{} (ltrb), line-pad {lp}, {:?}, {:?}/{:?}, width {:?}, height {:?}", ["Static", "Label", "Button"][kind], d.markup, ch.l, ch.t, ch.r, ch.b, s.box_sizing, s.text_wrap, s.text_overflow, s.width, s.height);
    cx.distinct(&what);
    let mut w: W = match kind {
        0 => { let mut w = Static::new(d.markup.clone()).with_markup(markup); if title { w.set_border_title("Ti") } if sub { w.set_border_subtitle("Su") } Box::new(w) }
        1 => { let mut w = Label::new(d.markup.clone()).with_markup(markup); if title { w.set_border_title("Ti") } if sub { w.set_border_subtitle("Su") } Box::new(w) }
        _ => { let mut b = Button::new("x"); b.set_label(d.markup.clone()); Box::new(b) }
    };
    if kind < 2 && cx.r.chance(1, 8) {
        // the text was another one before
        let t = d.markup.clone();
        let any = w.as_any_mut().expect("harness: any");
        if let Some(x) = any.downcast_mut::<Static<()>>() { x.update("before that\n\n\n\nit was longer, and wide"); x.update(t); } else if let Some(x) = any.downcast_mut::<Label<()>>() { x.update("b"); x.update(t); }
    }
    w.set_style(s.clone());
    cx.obs.evals += 1;
    let got = guard(|| w.desired_size())?;
    let tw = d.lines.iter().map(|l| width(l)).max().unwrap_or(0);
    let flex = |u: Unit| !matches!(u, Unit::Cells | Unit::Auto);
    let want = |v: &Option<Scalar>, auto: usize, chrome: usize| match v {
        Some(x) if x.unit == Unit::Cells => x.value as usize + if s.box_sizing == BoxSizing::ContentBox { chrome } else { 0 },
        Some(x) if flex(x.unit) => u16::MAX as usize,
        _ => auto + chrome,
    };
    let (ww, wh) = (want(&s.width, tw + 2 * lp, ch.w()), want(&s.height, d.lines.len(), ch.h()));
    let auto_w = s.width.as_ref().is_none_or(|x| x.unit == Unit::Auto);
    let auto_h = s.height.as_ref().is_none_or(|x| x.unit == Unit::Auto);
    let mut room = got.width as usize;
    if got.width as usize != ww && markup && d.tagged && auto_w {
        let raw = d.markup.lines().map(gt::dwidth).max().unwrap_or(0) + 2 * lp + ch.w();
        ensure_eq!(got.width as usize, raw, "{what}: width asked for (neither the text's {ww} nor the known one of the text with its tags)");
        *cx.obs.known.entry("auto-width-raw-markup".into()).or_default() += 1;
        cx.count("auto widths that count markup tags");
        room = ww;
    } else { ensure_eq!(got.width as usize, ww, "{what}: width asked for"); }
    ensure_eq!(got.height as usize, wh, "{what}: height asked for");
    cx.count("sizes asked for compared");
    // heights at other widths, and what is shown there
    let mut ws: Vec<usize> = (0..3).map(|_| cx.r.below(40) + cx.r.below(2) * ch.w()).collect();
    if auto_w && auto_h && room < 400 { ws.push(room); }
    for w_ in ws {
        let avail = w_.saturating_sub(ch.w() + 2 * lp).max(1);
        if d.lines.iter().flatten().any(|g| g.w > avail) { cx.count("skipped: character wider than the room"); continue; }
        let exp = rows(&d.lines, avail, s.text_wrap, s.text_overflow);
        let h = guard(|| w.intrinsic_height_for_width(w_ as u16))? as usize;
        ensure_eq!(h, exp.len().max(1) + ch.h(), "{what}: height asked for at width {w_} ({:?})", exp.iter().map(|l| text(l)).collect::<Vec<_>>());
        cx.count("heights asked for compared");
        if w_ < ch.w() + 2 * lp + 1 || h > 300 { continue; }
        let h = if w_ == room && auto_h && auto_w { let h = got.height as usize; ensure!(h == exp.len().max(1) + ch.h() , "{what}: asks for {w_}x{h}, where its text takes {} rows", exp.len()); h } else { h };
        let (cw, chh) = (w_ + 2, h + 2);
        let mut cv = Canvas::new(cw as u16, chh as u16);
        guard(|| w.render(&mut cv, Region::new(1, 1, w_ as i32, h as i32)))?;
        let cells = cellv(&cv);
        let (x0, x1) = (1 + ch.l + lp, 1 + w_ - ch.r);
        let shown: Vec<String> = (0..h - ch.h()).map(|y| read(&cells, cw, x0, x1, 1 + ch.t + y)).collect();
        for (i, l) in exp.iter().enumerate() {
            let t = shown[i].trim_end_matches(' ');
            if width(l) > avail {
                let cut = if s.text_overflow == TextOverflow::Ellipsis { avail - 1 } else { avail };
                let mut keep = String::new();
                for g in l { if gt::dwidth(&keep) + g.w > cut { break; } keep.push_str(&g.g); }
                ensure!(t.starts_with(keep.trim_end_matches(' ')), "{what}: drawn {w_}x{h}, row {i} shows {t:?}, expected the start of {:?}", text(l));
                cx.count("rows cut short on purpose");
            } else if exp.len() == d.lines.len() { ensure!(t == text(l).trim_end_matches(' '), "{what}: drawn {w_}x{h}, row {i} shows {t:?}, expected {:?}", text(l)); }
            else { ensure_eq!(t.trim_matches(' '), text(trim(l)), "{what}: drawn {w_}x{h}, row {i}"); }
            cx.count("rows read back");
        }
    }
    cx.sample(|| format!("{what} asks for {}x{}", got.width, got.height));
    Ok(())
}

/// widgets below one another in a container: everything they say can be read
fn column(cx: &mut Cx) -> R {
    let n = 1 + cx.r.below(5);
    let w = 3 + cx.r.below(50);
    let mut css = String::from("Screen { layout: vertical; overflow: hidden; } Static, Label, Placeholder { height: auto; } \n");
    let mut kids: Vec<W> = vec![];
    let mut exp: Vec<(usize, usize, String)> = vec![]; // columns of the text, text
    // boxes around the column: what they take on each side
    let boxes: Vec<(usize, usize, usize, usize, bool)> = (0..cx.r.below(4)).map(|_| (cx.r.below(3), cx.r.below(2), cx.r.below(2), cx.r.below(3), cx.r.chance(1, 3))).collect();
    let mut what = format!("screen of {w} columns, boxes (padding t r b l, border) {boxes:?}:");
    let full = w;
    let (bl, br): (usize, usize) = boxes.iter().fold((0, 0), |(l, r), b| (l + b.3 + b.4 as usize, r + b.1 + b.4 as usize));
    let w = w + bl + br;
    for (i, b) in boxes.iter().enumerate() { css.push_str(&format!("#b{i} {{ height: auto; width: 100%; layout: vertical; overflow: hidden; padding: {} {} {} {}; {} }}\n", b.0, b.1, b.2, b.3, if b.4 { "border: round red;" } else { "" })); for _ in 0..b.0 + b.4 as usize { exp.push((0, 0, String::new())); } }
    let (screen_w, w) = (w, full);
    let mut skip = false;
    for i in 0..n {
        let kind = cx.r.below(3);
        let (pl, pr, pt, pb) = (cx.r.below(3), cx.r.below(3), cx.r.below(2), cx.r.below(2));
        let border = kind < 2 && cx.r.chance(1, 3);
        css.push_str(&format!("#k{i} {{ padding: {pt} {pr} {pb} {pl}; {} content-align: left top; }}\n", if border { "border: solid red;" } else { "" }));
        let e = border as usize;
        let (cw, left) = (pl + pr + 2 * e, pl + e);
        for _ in 0..pt + e { exp.push((0, 0, String::new())); }
        if kind == 2 {
            let words: Vec<String> = (0..1 + cx.r.below(6)).map(|_| gt::word(&mut cx.r, 8, false).replace(' ', "x")).map(|w| if w.is_empty() { "e".into() } else { w }).collect();
            let label = words.join(" ");
            let inner = w.saturating_sub(pl + pr).max(1);
            if w <= pl + pr { skip = true; }
            let ls = greedy(&label, inner);
            let m = ls.iter().map(|l| gt::dwidth(l)).max().unwrap_or(0);
            for l in ls { exp.push((pl + (inner.saturating_sub(m)) / 2, w - pr, l)); }
            what.push_str(&format!(" Placeholder {label:?} padding {pt} {pr} {pb} {pl};"));
            kids.push(Box::new(Placeholder::new().with_label(label).with_id(format!("k{i}"))));
        } else {
            let d = doc(&mut cx.r, false);
            let tw = d.lines.iter().map(|l| width(l)).max().unwrap_or(0);
            // a label is as wide as its text, also where the screen is not
            let ow = if kind == 1 { tw + cw } else { w };
            if ow <= cw || d.lines.iter().flatten().any(|g| g.w > ow - cw) { skip = true; }
            let avail = ow.saturating_sub(cw).max(1);
            let rs = rows(&d.lines, avail, TextWrap::Wrap, TextOverflow::Fold);
            let whole = rs.len() == d.lines.len();
            for l in rs { let t = if whole { text(&l) } else { text(trim(&l)) }; exp.push((left, left + avail, t)); }
            what.push_str(&format!(" {} {:?} padding {pt} {pr} {pb} {pl}{};", if kind == 0 { "Static" } else { "Label" }, d.markup, if border { " bordered" } else { "" }));
            let id = format!("k{i}");
            kids.push(if kind == 0 { Box::new(Static::new(d.markup).with_markup(false).with_id(id)) } else { Box::new(Label::new(d.markup).with_markup(false).with_id(id)) });
        }
        for _ in 0..pb + e { exp.push((0, 0, String::new())); }
    }
    cx.distinct(&what);
    if skip { cx.count("skipped: column too narrow"); return Ok(()); }
    for e in &mut exp { e.0 += bl; e.1 += bl; }
    for (i, b) in boxes.iter().enumerate().rev() { kids = vec![Box::new(Container::new(kids).with_id(format!("b{i}")))]; for _ in 0..b.2 + b.4 as usize { exp.push((0, 0, String::new())); } }
    kids.push(Box::new(Static::new("END")));
    exp.push((0, 3, "END".into()));
    let inner_w = bl + w;
    let w = screen_w;
    let mut root: W = Box::new(AppWidget::new(vec![Box::new(Screen::new(kids)) as W]));
    let h = exp.len() + 3;
    style(&mut root, &css);
    let mut cv = Canvas::new(w as u16, h as u16);
    guard(|| root.render(&mut cv, Region::from_u16(0, 0, w as u16, h as u16)))?;
    let cells = cellv(&cv);
    cx.obs.evals += 1;
    cx.count("columns of widgets drawn");
    for (y, (x0, x1, t)) in exp.iter().enumerate() {
        let t = t.trim_end_matches(' ');
        if t.is_empty() || *x0 >= inner_w { continue; }
        let end = if y + 1 == exp.len() { w } else { inner_w };
        let shown = read(&cells, w, *x0, (*x1).min(end), y);
        let (a, b) = (shown.trim_matches(' '), t.trim_matches(' '));
        let cut = x0 + gt::dwidth(t) > end;
        if cut { cx.count("rows wider than the screen"); }
        ensure!(if cut { b.starts_with(a) && x0 + gt::dwidth(&shown) >= end.min(x0 + gt::dwidth(t)) } else { a == b }, "{what}: row {y} shows {a:?}, expected {b:?}\n  screen {:?}\n  rows expected {:?}", (0..h).map(|y| read(&cells, w, 0, w, y)).collect::<Vec<_>>(), exp);
        cx.count("rows read back");
    }
    Ok(())
}
fn style(root: &mut W, css: &str) {
    root.on_resize(textual::Size::new(80, 24));
    let css = format!("{}\n{}", <Screen<()> as Widget<()>>::base_widget_css(), textual::testing::build_combined_css(root.as_mut(), css));
    let sheet = tcss::parser::parse_stylesheet(&css).expect("harness: css");
    resolve_styles(root.as_mut(), &sheet, &theme(), &mut VecDeque::new());
}

/// words on lines as full as possible, one space between words; words too long are broken
fn greedy(text: &str, w: usize) -> Vec<String> {
    let mut out = vec![];
    for par in text.split('\n') {
        let mut cur = String::new();
        for word in par.split(' ') {
            if !cur.is_empty() && gt::dwidth(&cur) + 1 + gt::dwidth(word) <= w { cur.push(' '); cur.push_str(word); continue; }
            if !cur.is_empty() { out.push(std::mem::take(&mut cur)); }
            for g in gt::graphemes(word) { if !cur.is_empty() && gt::dwidth(&cur) + gt::dwidth(g) > w { out.push(std::mem::take(&mut cur)); } cur.push_str(g); }
        }
        out.push(cur);
    }
    out
}
const LOREM: &str = "Lorem ipsum dolor sit amet, consectetur adipiscing elit. Etiam feugiat ac elit sit amet accumsan. Suspendisse bibendum nec libero quis gravida. Phasellus id eleifend ligula. Nullam imperdiet sem tellus, sed vehicula nisl faucibus sit amet. Praesent iaculis tempor ultricies. Sed lacinia, tellus id rutrum lacinia, sapien sapien congue mauris, sit amet pellentesque quam quam vel nisl. Curabitur vulputate erat pellentesque mauris posuere, non dictum risus mattis.";
const PALETTE: [u32; 12] = [0x881177, 0xaa3355, 0xcc6666, 0xee9944, 0xeedd00, 0x99dd55, 0x44dd88, 0x22ccbb, 0x00bbcc, 0x0099cc, 0x3366bb, 0x663399];

fn placeholder(cx: &mut Cx) -> R {
    textual::reset_placeholder_counter();
    let skip = cx.r.below(30);
    for _ in 0..skip { let _ = Placeholder::new(); }
    let mut p = Placeholder::new();
    let words = |r: &mut Rng| { let mut t = String::new(); for i in 0..1 + r.below(6) { if i > 0 { t.push(if r.chance(1, 6) { '\n' } else { ' ' }); } let w: String = gt::word(r, 9, true).replace(' ', ""); t.push_str(if w.is_empty() { "w" } else { &w }); } t };
    let label = cx.r.chance(2, 3).then(|| words(&mut cx.r));
    let id = cx.r.bool().then(|| "some-id".to_string());
    if let Some(l) = &label { p = p.with_label(l.clone()); }
    if let Some(l) = &id { p = p.with_id(l.clone()); }
    let mut v = *cx.r.pick(&[PlaceholderVariant::Default, PlaceholderVariant::Default, PlaceholderVariant::Size, PlaceholderVariant::Text]);
    p = p.with_variant(v);
    let mut s = ComputedStyle { color: Some(rgb(&mut cx.r)), ..Default::default() };
    let under = rgb(&mut cx.r);
    s.inherited_background = Some(under.clone());
    if cx.r.bool() { s.background = Some(rgb(&mut cx.r)); }
    let pad = pads(&mut cx.r, &mut s);
    let auto = |r: &mut Rng| match r.below(4) { 0 => Some(Scalar { value: 0.0, unit: Unit::Auto }), 1 => Some(sc(r.below(40))), 2 => Some(Scalar { value: 1.0, unit: *r.pick(&[Unit::Fraction, Unit::Percent, Unit::ViewHeight]) }), _ => None };
    s.width = auto(&mut cx.r);
    s.height = auto(&mut cx.r);
    let mut w: Box<dyn Widget<()>> = Box::new(p);
    w.set_style(s.clone());
    let bg = s.background.clone().unwrap_or_else(|| { let c = PALETTE[skip % 12]; RgbaColor::rgba((c >> 16) as u8, (c >> 8) as u8, c as u8, 0.5).blend_over(&under) });
    let fg = s.color.clone().unwrap();
    let base = format!("Placeholder label {label:?} id {id:?} padding {}/{}/{}/{} (ltrb) width {:?} height {:?}", pad.l, pad.t, pad.r, pad.b, s.width, s.height);
    for _ in 0..1 + cx.r.below(4) {
        let what = format!("{base}, {v:?}");
        cx.distinct(&what);
        cx.obs.evals += 1;
        let content = |rw: usize, rh: usize| match v {
            PlaceholderVariant::Default => label.clone().or(id.as_ref().map(|i| format!("#{i}"))).unwrap_or("Placeholder".into()),
            PlaceholderVariant::Size => format!("{rw} x {rh}"),
            PlaceholderVariant::Text => [LOREM; 5].join("\n\n"),
        };
        let extra = if v == PlaceholderVariant::Text { 2 } else { 0 };
        if v != PlaceholderVariant::Size {
            let c = content(0, 0);
            let lines: Vec<&str> = c.split('\n').collect();
            let dimw = |d: &Option<Scalar>, auto: usize| match d { Some(x) if x.unit == Unit::Cells => x.value as usize, Some(x) if x.unit != Unit::Auto => u16::MAX as usize, _ => auto };
            let (ww, wh) = (dimw(&s.width, lines.iter().map(|l| gt::dwidth(l)).max().unwrap() + extra + pad.w()), dimw(&s.height, lines.len() + extra + pad.h()));
            let got = guard(|| w.desired_size())?;
            ensure!((got.width as usize, got.height as usize) == (ww, wh), "{what}: asks for {}x{}, its text needs {ww}x{wh}", got.width, got.height);
        }
        let most = if cx.r.bool() { 14 } else { 70 };
        let (rw, rh) = (1 + cx.r.below(most), 1 + cx.r.below(24));
        let inner = rw.saturating_sub(pad.w() + extra).max(1);
        let asked = guard(|| w.intrinsic_height_for_width(rw as u16))? as usize;
        if v != PlaceholderVariant::Size { ensure_eq!(asked, greedy(&content(rw, 0), inner).len() + extra + pad.h(), "{what}: height asked for at width {rw}"); } else { ensure!(asked >= 1 + pad.h(), "{what}: asks for {asked} rows at width {rw}"); }
        cx.count("heights asked for compared");
        let rh = if cx.r.chance(1, 3) { asked.min(60) } else { rh };
        // draw it, and draw the model with the canvas
        let (ox, oy) = (cx.r.below(3), cx.r.below(2));
        let (cw, chh) = (rw + ox + 2, rh + oy + 2);
        let mut cv = Canvas::new(cw as u16, chh as u16);
        let mut mv = Canvas::new(cw as u16, chh as u16);
        let reg = Region::new(ox as i32, oy as i32, rw as i32, rh as i32);
        guard(|| w.render(&mut cv, reg))?;
        for y in 0..rh { for x in 0..rw { mv.put_char((ox + x) as i32, (oy + y) as i32, ' ', None, Some(bg.clone()), TextAttributes::default()); } }
        if rw > pad.w() && rh > pad.h() {
            let (iw, ih) = (rw - pad.w(), rh - pad.h());
            let (iw, ih) = (iw.saturating_sub(extra).max(1), ih.saturating_sub(extra).max(1));
            let c = content(rw, rh);
            let mut ls = if v == PlaceholderVariant::Size { vec![c] } else { greedy(&c, iw) };
            if v == PlaceholderVariant::Text { ls.truncate(ih); }
            let m = ls.iter().map(|l| gt::dwidth(l)).max().unwrap();
            let (bx, by) = (ox + pad.l + extra / 2 + iw.saturating_sub(m) / 2, oy + pad.t + extra / 2 + ih.saturating_sub(ls.len()) / 2);
            let at = TextAttributes { bold: v == PlaceholderVariant::Size, ..Default::default() };
            mv.push_clip(reg);
            for (i, l) in ls.iter().enumerate() { mv.put_str(bx as i32, (by + i) as i32, l, Some(fg.clone()), Some(bg.clone()), at.clone()); }
            mv.pop_clip();
        }
        let (got, want) = (cellv(&cv), cellv(&mv));
        let show = |c: &[Cell]| (0..chh).map(|y| read(c, cw, 0, cw, y)).collect::<Vec<_>>();
        for i in 0..got.len() { ensure!(got[i] == want[i], "{what}: drawn {rw}x{rh} at {ox},{oy}: cell {},{} is {:?}, expected {:?}\n  drawn {:?}\n  model {:?}", i % cw, i / cw, got[i], want[i], show(&got), show(&want)); }
        cx.count("placeholders drawn");
        cx.sample(|| format!("{what} in {rw}x{rh}: {:?}", show(&got)));
        // the pointer
        for _ in 0..cx.r.below(4) {
            let (x, y) = (cx.r.below(cw), cx.r.below(chh));
            let kind = *cx.r.pick(&[MouseEventKind::Down(MouseButton::Left), MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left), MouseEventKind::Moved, MouseEventKind::ScrollDown]);
            w.on_mouse(MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::empty() }, reg);
            if matches!(kind, MouseEventKind::Down(_)) && reg.contains_point(x as i32, y as i32) { v = match v { PlaceholderVariant::Default => PlaceholderVariant::Size, PlaceholderVariant::Size => PlaceholderVariant::Text, PlaceholderVariant::Text => PlaceholderVariant::Default }; cx.count("clicks that change the variant"); }
            let now = w.as_any().and_then(|a| a.downcast_ref::<Placeholder>()).map(|p| p.variant());
            if let Some(now) = now { ensure_eq!(now, v, "{what}: variant after {kind:?} at {x},{y} (region {rw}x{rh} at {ox},{oy})"); }
        }
    }
    Ok(())
}

fn ruler(cx: &mut Cx) -> R {
    let vert = cx.r.bool();
    let mut w: Ruler<()> = match cx.r.below(3) { 0 => if vert { Ruler::vertical() } else { Ruler::horizontal() }, 1 => { let w: Ruler<()> = if vert { Ruler::vertical() } else { Ruler::horizontal() }; w.with_classes("a b") } _ => { let mut w: Ruler<()> = if vert { Ruler::vertical() } else { Ruler::horizontal() }; w.set_classes("x"); w } };
    let (on, off) = if vert { ("-vertical", "-horizontal") } else { ("-horizontal", "-vertical") };
    ensure!(Widget::<()>::has_class(&w, on) && !Widget::<()>::has_class(&w, off), "ruler (vertical {vert}) has classes {:?}", Widget::<()>::get_meta(&w).classes);
    let (fg, bg) = (rgb(&mut cx.r), rgb(&mut cx.r));
    w.set_style(ComputedStyle { color: Some(fg.clone()), background: Some(bg.clone()), ..Default::default() });
    let (rw, rh) = (cx.r.below(40), cx.r.below(30));
    let (cw, ch) = (rw + 3, rh + 3);
    let mut cv = Canvas::new(cw as u16, ch as u16);
    let mut mv = Canvas::new(cw as u16, ch as u16);
    guard(|| w.render(&mut cv, Region::new(1, 1, rw as i32, rh as i32)))?;
    for i in 0..if vert { rh } else { rw } {
        if rw == 0 || rh == 0 { break; }
        let (x, y) = if vert { (1, 1 + i) } else { (1 + i, 1) };
        mv.put_char(x as i32, y as i32, if i % 5 == 4 { '•' } else { '·' }, Some(fg.clone()), Some(bg.clone()), TextAttributes::default());
    }
    ensure!(cellv(&cv) == cellv(&mv), "ruler (vertical {vert}) in {rw}x{rh} shows {:?}", (0..ch).map(|y| read(&cellv(&cv), cw, 0, cw, y)).collect::<Vec<_>>());
    let d = guard(|| Widget::<()>::desired_size(&w))?;
    ensure_eq!((d.width, d.height), if vert { (1, u16::MAX) } else { (u16::MAX, 1) }, "size the ruler asks for (vertical {vert})");
    cx.distinct(&(vert, rw, rh));
    cx.obs.evals += 1;
    cx.count("rulers drawn");
    Ok(())
}

fn tooltip(cx: &mut Cx) -> R {
    let d = doc(&mut cx.r, false);
    let mut t: Tooltip<()> = Tooltip::new();
    let mut s = ComputedStyle { color: Some(rgb(&mut cx.r)), background: Some(RgbaColor::rgb(1, 2, 3)), ..Default::default() };
    let ch = chrome(&mut cx.r, &mut s);
    let (sw, sh) = (1 + cx.r.below(90), 1 + cx.r.below(30));
    let lim = |r: &mut Rng, n: usize| match r.below(5) { 0 => Some((Scalar { value: 50.0, unit: Unit::Percent }, ((n as f64) * 0.5).round() as usize)), 1 | 2 => { let k = 1 + r.below(45); Some((sc(k), k)) } _ => None };
    let (maxw, minw, maxh, minh) = (lim(&mut cx.r, sw), if cx.r.chance(1, 4) { lim(&mut cx.r, sw) } else { None }, if cx.r.chance(1, 5) { lim(&mut cx.r, sh) } else { None }, if cx.r.chance(1, 5) { lim(&mut cx.r, sh) } else { None });
    (s.max_width, s.min_width, s.max_height, s.min_height) = (maxw.clone().map(|x| x.0), minw.clone().map(|x| x.0), maxh.clone().map(|x| x.0), minh.clone().map(|x| x.0));
    s.height = if cx.r.bool() { Some(Scalar { value: 0.0, unit: Unit::Auto }) } else { None };
    s.width = if cx.r.bool() { Some(Scalar { value: 0.0, unit: Unit::Auto }) } else { None };
    t.set_style(s.clone());
    let (ox, oy) = (cx.r.below(3), cx.r.below(3));
    let (cw, chh) = (sw + ox + 1, sh + oy + 1);
    let what = format!("tooltip {:?}, chrome {}/{}/{}/{} (ltrb), limits w {minw:?}..{maxw:?} h {minh:?}..{maxh:?}, region {sw}x{sh} at {ox},{oy}", d.markup, ch.l, ch.t, ch.r, ch.b);
    cx.distinct(&what);
    let draw = |t: &Tooltip<()>| -> Result<Vec<Cell>, String> { let mut cv = Canvas::new(cw as u16, chh as u16); guard(|| t.render(&mut cv, Region::new(ox as i32, oy as i32, sw as i32, sh as i32)))?; Ok(cellv(&cv)) };
    let blank = cellv(&Canvas::new(cw as u16, chh as u16));
    if cx.r.chance(1, 4) { ensure!(draw(&t)? == blank && !t.is_visible(), "{what}: drawn before it was shown"); }
    if cx.r.chance(1, 4) { t.show("something else\nbefore"); if cx.r.bool() { t.hide(); ensure!(draw(&t)? == blank && !t.is_visible(), "{what}: drawn after it was hidden"); cx.count("hidden tooltips"); } }
    t.show(d.markup.clone());
    cx.obs.evals += 1;
    ensure!(t.is_visible(), "{what}: shown, but not visible");
    let tw = d.lines.iter().map(|l| width(l)).max().unwrap_or(0);
    let mut w = tw + ch.w();
    if let Some(m) = &maxw { w = w.min(m.1); }
    if let Some(m) = &minw { w = w.max(m.1); }
    let w = w.min(sw);
    let avail = w.saturating_sub(ch.w()).max(1);
    if w <= ch.w() || d.lines.iter().flatten().any(|g| g.w > avail) { cx.count("skipped: character wider than the room"); let _ = draw(&t)?; return Ok(()); }
    let exp = rows(&d.lines, avail, TextWrap::Wrap, TextOverflow::Fold);
    let mut h = exp.len() + ch.h();
    if let Some(m) = &maxh { h = h.min(m.1); }
    if let Some(m) = &minh { h = h.max(m.1); }
    let mut last = (0, 0);
    for _ in 0..1 + cx.r.below(3) {
        let (px, py) = if cx.r.chance(1, 3) { last } else { (cx.r.i32(-2, sw as i32 + 6), cx.r.i32(-2, sh as i32 + 6)) };
        last = (px, py);
        let anchored = cx.r.bool();
        if anchored { t.set_anchor(px, py) } else { t.set_position(px, py) }
        let (x, y) = if anchored {
            let above = py - (h as i32);
            let below = py + 1 + h as i32 <= (oy + sh) as i32;
            (px - w as i32 / 2, if below || above < oy as i32 { py + 1 } else { above })
        } else { (px, py) };
        // in sight
        let x = x.min((ox + sw) as i32 - w as i32).max(ox as i32) as usize;
        let y = y.min((oy + sh) as i32 - h as i32).max(oy as i32) as usize;
        let vh = h.min(oy + sh - y);
        let what = format!("{what}, {} {px},{py}: expected {w}x{h} at {x},{y}", if anchored { "pointer at" } else { "position" });
        let got = draw(&t)?;
        for (i, c) in got.iter().enumerate() {
            let (cx_, cy) = (i % cw, i / cw);
            let inside = cx_ >= x && cx_ < x + w && cy >= y && cy < y + vh;
            ensure!(inside != (c == &blank[i]), "{what}: cell {cx_},{cy} is {:?}", c);
        }
        if vh == h && h >= exp.len() + ch.h() {
            for (i, l) in exp.iter().enumerate() {
                let r = read(&got, cw, x + ch.l, x + w - ch.r, y + ch.t + i);
                ensure!(r.trim_matches(' ') == text(l).trim_matches(' '), "{what}: row {i} of its text is {r:?}, expected {:?}", text(l));
                cx.count("rows read back");
            }
            cx.count("tooltips shown whole");
            if anchored && (py >= (y + h) as i32 || py < y as i32) { cx.count("tooltips next to the pointer"); }
        } else { cx.count("tooltips too large for the screen"); }
    }
    if cx.r.chance(1, 3) { t.hide(); ensure!(draw(&t)? == blank && !t.is_visible(), "{what}: drawn after it was hidden"); }
    Ok(())
}

fn with_header(root: &mut W, f: &mut dyn FnMut(&mut Header<()>)) { walk(root.as_mut(), f) }
fn walk(w: &mut dyn Widget<()>, f: &mut dyn FnMut(&mut Header<()>)) {
    if let Some(h) = w.as_any_mut().and_then(|a| a.downcast_mut::<Header<()>>()) { f(h); return; }
    w.for_each_child(&mut |c| walk(c, f));
}
fn header(cx: &mut Cx) -> R {
    let words = |r: &mut Rng, n: usize| { let mut t = String::new(); for i in 0..1 + r.below(n) { if i > 0 { t.push(' '); } let w: String = gt::word(r, 9, true).chars().filter(|c| !"[]\\".contains(*c)).collect(); t.push_str(if w.is_empty() { "w" } else { &w }); } t };
    let mut title = words(&mut cx.r, 6);
    let mut sub: Option<String> = None;
    let tall = cx.r.chance(1, 4);
    let mut h: Header<()> = Header::new(title.clone()).with_tall(tall);
    if cx.r.bool() { let s = if cx.r.chance(1, 6) { String::new() } else { words(&mut cx.r, 5) }; h = h.with_subtitle(s.clone()); sub = Some(s); }
    let (w, sh) = (20 + cx.r.below(70), 6);
    let mut root: W = Box::new(AppWidget::new(vec![Box::new(Screen::new(vec![Box::new(Static::new("body")) as W, Box::new(h) as W])) as W]));
    let reg = Region::from_u16(0, 0, w as u16, sh as u16);
    let mut hover = false;
    for step in 0..1 + cx.r.below(5) {
        if step > 0 {
            let t = words(&mut cx.r, 6);
            match cx.r.below(4) {
                0 => { with_header(&mut root, &mut |h| h.set_title(t.clone())); title = t; }
                1 => { with_header(&mut root, &mut |h| h.set_subtitle(t.clone())); sub = Some(t); }
                2 => { with_header(&mut root, &mut |h| h.clear_subtitle()); sub = None; }
                _ => {
                    // the pointer goes somewhere, is pressed there and released somewhere
                    let rows = if tall { 3 } else { 1 };
                    let at = |r: &mut Rng| { let (a, b) = (if r.bool() { 8 } else { w }, if r.bool() { rows } else { sh }); (r.below(a), r.below(b)) };
                    let on = |p: (usize, usize)| p.0 < 8 && p.1 < rows;
                    let (a, b) = (at(&mut cx.r), at(&mut cx.r));
                    let ev = |kind, p: (usize, usize)| MouseEvent { kind, column: p.0 as u16, row: p.1 as u16, modifiers: KeyModifiers::empty() };
                    textual::clear_all_hover(root.as_mut());
                    root.on_mouse(ev(MouseEventKind::Moved, a), reg);
                    hover = on(a);
                    let tip = textual::find_hovered_tooltip_mut(root.as_mut());
                    ensure_eq!(tip.is_some(), hover, "header {w} wide: tooltip {tip:?} with the pointer at {a:?}");
                    root.on_mouse(ev(MouseEventKind::Down(MouseButton::Left), a), reg);
                    root.on_mouse(ev(MouseEventKind::Up(MouseButton::Left), b), reg);
                    let acts = textual::collect_pending_actions_mut(root.as_mut());
                    let want: Vec<String> = if on(a) && on(b) { vec!["app.command_palette".into()] } else { vec![] };
                    ensure_eq!(acts, want, "header {w} wide: actions after pressing at {a:?} and releasing at {b:?}");
                    cx.count("header clicks");
                }
            }
            let mut t = (String::new(), None);
            with_header(&mut root, &mut |h| t = (h.title().to_string(), h.subtitle().map(|s| s.to_string())));
            ensure_eq!(t, (title.clone(), sub.clone()), "title() and subtitle()");
        }
        style(&mut root, "");
        let mut cv = Canvas::new(w as u16, sh as u16);
        guard(|| root.render(&mut cv, reg))?;
        let cells = cellv(&cv);
        let full = match &sub { Some(s) if !s.is_empty() => format!("{title} — {s}"), _ => title.clone() };
        let what = format!("header {w} wide (tall {tall}) with title {title:?}, subtitle {sub:?}, pointer on the icon {hover}");
        cx.distinct(&what);
        cx.obs.evals += 1;
        let bar = if tall { 3 } else { 1 };
        let shown: Vec<String> = (0..sh).map(|y| read(&cells, w, 0, w, y)).collect();
        let row = (0..bar).find(|&y| !read(&cells, w, 8, w - 10, y).trim_matches(' ').is_empty());
        let Some(row) = row else { return Err(format!("{what}: no title in {shown:?}")); };
        let room = w - 18;
        let tw = gt::dwidth(&full);
        let mut exp: Vec<(String, bool)> = vec![(" ".into(), false); room]; // cell, dim
        let lead = if tw <= room { (room - tw) / 2 } else { 0 };
        let mut x = lead;
        let dim_from = title.len() + 1;
        let mut at = 0;
        for g in gt::graphemes(&full) {
            let gw = gt::dwidth(g);
            if tw > room && x + gw > room - 1 { break; }
            exp[x] = (g.into(), at >= dim_from && full.len() > title.len());
            for k in 1..gw { exp[x + k] = (String::new(), exp[x].1); }
            x += gw;
            at += g.len();
        }
        if tw > room { exp[room - 1] = ("…".into(), false); cx.count("titles cut short"); }
        for (i, (g, dim)) in exp.iter().enumerate() {
            let c = &cells[row * w + 8 + i];
            let sym = if c.continuation { "" } else { c.symbol.as_str() };
            ensure!(sym == g, "{what}: title reads {:?}, expected {:?}", read(&cells, w, 8, w - 10, row), exp.iter().map(|e| e.0.as_str()).collect::<String>());
            if g != " " && g != "…" && !g.is_empty() { ensure!(c.attrs.dim == *dim, "{what}: {g:?} of the title at {} is dim: {}", 8 + i, c.attrs.dim); }
        }
        // the icon, and nothing else
        let icon: Vec<usize> = (0..bar).filter(|&y| cells[y * w + 1].symbol == "⭘").collect();
        ensure!(icon.len() == 1, "{what}: icon on rows {icon:?} of {shown:?}");
        for y in 0..bar {
            for x in (0..w).filter(|&x| x < 8 || x >= w - 10 || y != row) {
                let c = &cells[y * w + x];
                ensure!(c.symbol == " " || (x == 1 && y == icon[0]), "{what}: {:?} at {x},{y}: {shown:?}", c.symbol);
            }
            // the pointer lights up the icon's cells only
            let b = |x: usize| format!("{:?}", cells[y * w + x].bg);
            for x in 0..w { ensure!((b(x) != b(w - 1)) == (hover && x < 8), "{what}: background {} at {x},{y}, {} at the right end", b(x), b(w - 1)); }
        }
        ensure!(shown[bar].starts_with("body"), "{what}: below the header: {shown:?}");
        cx.count("headers drawn");
        cx.sample(|| format!("{what}: {:?}", shown[row]));
    }
    Ok(())
}
