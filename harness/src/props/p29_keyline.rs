//! P29: keylines: the glyphs join where the lines meet, and the lines are where the boxes end.
use super::p19_mouse::{cellv, theme};
use super::p20_scroll::Model;
use crate::core::*;
use crate::layout_model as lm;
use crate::probe::{self, Ev, Probe};
use crate::wtree::{Msg, W};
use crate::{ensure, ensure_eq};
use std::collections::{BTreeSet, VecDeque};
use tcss::parser::parse_stylesheet;
use tcss::types::keyline::{Keyline, KeylineStyle};
use tcss::types::{ComputedStyle, RgbaColor, Unit};
use textual::box_drawing::{combine_quads, get_box_char};
use textual::canvas::{Canvas, Cell, Region, TextAttributes};
use textual::containers::{container::Container, grid::Grid};
use textual::keyline_canvas::KeylineCanvas;
use textual::style_resolver::resolve_styles;
use textual::{KeyModifiers, MouseEvent, MouseEventKind, Size, Widget};

pub fn prop() -> Prop {
    Prop { id: "P29", quick: 60_000, thorough: 3_000_000, run, workers: 8,
        rule: "the first 256 cases compare the glyph of every combination of none, thin, heavy and double arms with the arms its Unicode name gives; the others draw random boxes, grids and grids with spanning cells on a keyline canvas, or render the same Container (vertical or horizontal, scrolled by 0-6 wheel steps, sometimes invisible) or Grid (random tracks, gutters, spans) with and without a keyline, and compare every cell; distinct = distinct drawings",
        assumptions: &["lines inside a Grid run in the cell before the next track; with no gutter they cover the last cell of the children", "colours of keylines are opaque", "grids that do not fit their region are only required not to draw outside it"] }
}
type Q = [u8; 4];
/// (up, right, down, left) of every box-drawing character, from the Unicode names: 1 light, 2 heavy, 3 double.
const BOX: &[(u8, u8, u8, u8, char)] = &[(0,1,0,1,'─'),(0,2,0,2,'━'),(1,0,1,0,'│'),(2,0,2,0,'┃'),(0,1,1,0,'┌'),(0,2,1,0,'┍'),(0,1,2,0,'┎'),(0,2,2,0,'┏'),(0,0,1,1,'┐'),(0,0,1,2,'┑'),(0,0,2,1,'┒'),(0,0,2,2,'┓'),(1,1,0,0,'└'),(1,2,0,0,'┕'),(2,1,0,0,'┖'),(2,2,0,0,'┗'),(1,0,0,1,'┘'),(1,0,0,2,'┙'),(2,0,0,1,'┚'),(2,0,0,2,'┛'),(1,1,1,0,'├'),(1,2,1,0,'┝'),(2,1,1,0,'┞'),(1,1,2,0,'┟'),(2,1,2,0,'┠'),(2,2,1,0,'┡'),(1,2,2,0,'┢'),(2,2,2,0,'┣'),(1,0,1,1,'┤'),(1,0,1,2,'┥'),(2,0,1,1,'┦'),(1,0,2,1,'┧'),(2,0,2,1,'┨'),(2,0,1,2,'┩'),(1,0,2,2,'┪'),(2,0,2,2,'┫'),(0,1,1,1,'┬'),(0,1,1,2,'┭'),(0,2,1,1,'┮'),(0,2,1,2,'┯'),(0,1,2,1,'┰'),(0,1,2,2,'┱'),(0,2,2,1,'┲'),(0,2,2,2,'┳'),(1,1,0,1,'┴'),(1,1,0,2,'┵'),(1,2,0,1,'┶'),(1,2,0,2,'┷'),(2,1,0,1,'┸'),(2,1,0,2,'┹'),(2,2,0,1,'┺'),(2,2,0,2,'┻'),(1,1,1,1,'┼'),(1,1,1,2,'┽'),(1,2,1,1,'┾'),(1,2,1,2,'┿'),(2,1,1,1,'╀'),(1,1,2,1,'╁'),(2,1,2,1,'╂'),(2,1,1,2,'╃'),(2,2,1,1,'╄'),(1,1,2,2,'╅'),(1,2,2,1,'╆'),(2,2,1,2,'╇'),(1,2,2,2,'╈'),(2,1,2,2,'╉'),(2,2,2,1,'╊'),(2,2,2,2,'╋'),(0,3,0,3,'═'),(3,0,3,0,'║'),(0,3,1,0,'╒'),(0,1,3,0,'╓'),(0,3,3,0,'╔'),(0,0,1,3,'╕'),(0,0,3,1,'╖'),(0,0,3,3,'╗'),(1,3,0,0,'╘'),(3,1,0,0,'╙'),(3,3,0,0,'╚'),(1,0,0,3,'╛'),(3,0,0,1,'╜'),(3,0,0,3,'╝'),(1,3,1,0,'╞'),(3,1,3,0,'╟'),(3,3,3,0,'╠'),(1,0,1,3,'╡'),(3,0,3,1,'╢'),(3,0,3,3,'╣'),(0,3,1,3,'╤'),(0,1,3,1,'╥'),(0,3,3,3,'╦'),(1,3,0,3,'╧'),(3,1,0,1,'╨'),(3,3,0,3,'╩'),(1,3,1,3,'╪'),(3,1,3,1,'╫'),(3,3,3,3,'╬'),(0,0,0,1,'╴'),(1,0,0,0,'╵'),(0,1,0,0,'╶'),(0,0,1,0,'╷'),(0,0,0,2,'╸'),(2,0,0,0,'╹'),(0,2,0,0,'╺'),(0,0,2,0,'╻'),(0,2,0,1,'╼'),(1,0,2,0,'╽'),(0,1,0,2,'╾'),(2,0,1,0,'╿')];
fn glyph(q: Q) -> Option<char> { BOX.iter().find(|b| [b.0, b.1, b.2, b.3] == q).map(|b| b.4) }

/// Lines on an unbounded sheet.
#[derive(Default)]
struct Lines { m: std::collections::HashMap<(i64, i64), Q> }
impl Lines {
    fn arm(&mut self, x: i64, y: i64, k: usize, lt: u8) { let q = self.m.entry((x, y)).or_default(); q[k] = q[k].max(lt); }
    fn h(&mut self, y: i64, a: i64, b: i64, lt: u8) { for x in a..b { self.arm(x, y, 1, lt); self.arm(x + 1, y, 3, lt); } }
    fn v(&mut self, x: i64, a: i64, b: i64, lt: u8) { for y in a..b { self.arm(x, y, 2, lt); self.arm(x, y + 1, 0, lt); } }
    fn rect(&mut self, x: i64, y: i64, w: i64, h: i64, lt: u8) { self.h(y, x, x + w - 1, lt); self.h(y + h - 1, x, x + w - 1, lt); self.v(x, y, y + h - 1, lt); self.v(x + w - 1, y, y + h - 1, lt); }
    fn mesh(&mut self, xs: &[i64], ys: &[i64], lt: u8) {
        for y in ys { self.h(*y, xs[0], *xs.last().unwrap(), lt); }
        for x in xs { self.v(*x, ys[0], *ys.last().unwrap(), lt); }
    }
    /// lines between cells of different occupants, and all around
    fn cells(&mut self, xs: &[i64], ys: &[i64], occ: &dyn Fn(usize, usize) -> Option<usize>, lt: u8) {
        let (n, m) = (xs.len() - 1, ys.len() - 1);
        for j in 0..m { for i in 0..=n { if i == 0 || i == n || occ(j, i - 1) != occ(j, i) { self.v(xs[i], ys[j], ys[j + 1], lt); } } }
        for i in 0..n { for j in 0..=m { if j == 0 || j == m || occ(j - 1, i) != occ(j, i) { self.h(ys[j], xs[i], xs[i + 1], lt); } } }
    }
}
/// `got` must be `base` with the lines of `l` drawn at (ox, oy) in colour c, inside the window only.
fn same(got: &[Cell], base: &[Cell], w: i32, l: &Lines, (ox, oy): (i32, i32), win: Region, c: &RgbaColor) -> Result<usize, String> {
    let fg = crossterm::style::Color::Rgb { r: c.r, g: c.g, b: c.b };
    let mut n = 0;
    for (i, g) in got.iter().enumerate() {
        let (x, y) = (i as i32 % w, i as i32 / w);
        let q = if win.contains_point(x, y) { l.m.get(&((x - ox) as i64, (y - oy) as i64)) } else { None };
        let want = match q.map(|q| (q, glyph(*q))) {
            Some((q, Some(ch))) => { n += 1; let _ = q; Cell { symbol: ch.to_string(), width: 1, continuation: false, fg: Some(fg), bg: base[i].bg, attrs: TextAttributes::default() } }
            _ => base[i].clone(),
        };
        if *g != want { return Err(format!("cell {x},{y} is {:?} (fg {:?}, bg {:?}), expected {:?} (fg {:?}, bg {:?}), arms {q:?}", g.symbol, g.fg, g.bg, want.symbol, want.fg, want.bg)); }
    }
    Ok(n)
}
fn col(r: &mut Rng) -> RgbaColor { RgbaColor::rgb(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8) }

fn run(cx: &mut Cx) -> R {
    if cx.case < 256 {
        let c = cx.case as u32;
        let q: Q = [(c & 3) as u8, (c >> 2 & 3) as u8, (c >> 4 & 3) as u8, (c >> 6 & 3) as u8];
        let got = get_box_char((q[0], q[1], q[2], q[3]));
        if let Some(g) = got { ensure_eq!(Some(g), glyph(q), "glyph for arms up, right, down, left {q:?}"); }
        // lines of one kind always have a glyph, if Unicode has one
        let kinds: BTreeSet<u8> = q.iter().copied().filter(|k| *k > 0).collect();
        if kinds.len() == 1 { ensure_eq!(got, glyph(q), "glyph for arms up, right, down, left {q:?}"); }
        cx.count("glyphs");
        cx.distinct(&q);
        return Ok(());
    }
    match cx.r.below(8) { 0..=3 => canvas(cx), 4 | 5 => container(cx), _ => grid(cx) }
}

fn steps(r: &mut Rng, n: usize, max: i64) -> Vec<i64> { let mut v = vec![r.below(4) as i64]; for _ in 0..n { let l = *v.last().unwrap(); v.push(l + 1 + r.below(max as usize) as i64); } v }

fn canvas(cx: &mut Cx) -> R {
    let (cw, ch) = (1 + cx.r.below(30) as u16, 1 + cx.r.below(14) as u16);
    let mut cv = Canvas::new(cw, ch);
    for y in 0..ch { for x in 0..cw { if cx.r.chance(2, 3) { let b = col(&mut cx.r); cv.put_char(x as i32, y as i32, *cx.r.pick(&['a', 'b', '#', ' ']), Some(RgbaColor::rgb(9, 9, 9)), cx.r.bool().then_some(b), TextAttributes { bold: cx.r.bool(), ..Default::default() }); } } }
    let base = cellv(&cv);
    let (kw, kh) = (cx.r.below(30), cx.r.below(14));
    let lt = 1 + cx.r.below(3) as u8;
    let c = col(&mut cx.r);
    let mut k = KeylineCanvas::new(kw, kh, lt, c.clone());
    let mut l = Lines::default();
    let n = 1 + cx.r.below(3);
    for _ in 0..n {
        match cx.r.below(4) {
            0 => {
                for _ in 0..1 + cx.r.below(4) {
                    let b = (cx.r.below(24), cx.r.below(12), 2 + cx.r.below(12), 2 + cx.r.below(6));
                    cx.t(format!("box {b:?}"));
                    k.add_widget_box(b.0, b.1, b.2, b.3);
                    l.rect(b.0 as i64, b.1 as i64, b.2 as i64, b.3 as i64, lt);
                }
            }
            1 => {
                let (nx, ny) = (1 + cx.r.below(4), 1 + cx.r.below(4));
                let (xs, ys) = (steps(&mut cx.r, nx, 9), steps(&mut cx.r, ny, 5));
                cx.t(format!("grid {xs:?} {ys:?}"));
                k.add_grid(&xs.iter().map(|x| *x as usize).collect::<Vec<_>>(), &ys.iter().map(|x| *x as usize).collect::<Vec<_>>());
                l.mesh(&xs, &ys, lt);
            }
            _ => {
                let (nx, ny) = (1 + cx.r.below(5), 1 + cx.r.below(5));
                let (xs, ys) = (steps(&mut cx.r, nx, 7), steps(&mut cx.r, ny, 4));
                // random occupants, sometimes fewer cells than the grid has
                let (or, oc) = (cx.r.below(ny + 2), cx.r.below(nx + 2));
                let few = 1 + cx.r.below(5);
                let occ: Vec<Vec<Option<usize>>> = (0..if cx.r.bool() { ny } else { or }).map(|_| (0..if cx.r.bool() { nx } else { oc }).map(|_| { let v = cx.r.below(few + 1); (v > 0).then_some(v) }).collect()).collect();
                cx.t(format!("cells {xs:?} {ys:?} {occ:?}"));
                k.add_grid_with_occupancy(&xs.iter().map(|x| *x as usize).collect::<Vec<_>>(), &ys.iter().map(|x| *x as usize).collect::<Vec<_>>(), &occ);
                l.cells(&xs, &ys, &|r, c| occ.get(r).and_then(|o| o.get(c)).copied().flatten(), lt);
            }
        }
    }
    let (ox, oy) = (cx.r.i32(-4, 8), cx.r.i32(-3, 5));
    let mut win = Region::new(0, 0, cw as i32, ch as i32).intersection(&Region::new(ox, oy, kw as i32, kh as i32));
    let clip = cx.r.bool().then(|| Region::new(cx.r.i32(-2, 10), cx.r.i32(-2, 6), cx.r.below(20) as i32, cx.r.below(10) as i32));
    if let Some(c) = clip { cv.push_clip(c); win = win.intersection(&c); }
    cx.t(format!("{kw}x{kh} at {ox},{oy}, clip {clip:?}, type {lt}"));
    k.render(&mut cv, Region::new(ox, oy, kw as i32, kh as i32));
    let n = same(&cellv(&cv), &base, cw as i32, &l, (ox, oy), win, &c).map_err(|e| format!("{e}\n{}", cx.trace.join("\n")))?;
    cx.add("line cells on a keyline canvas", n as u64);
    cx.count("keyline canvases");
    // two lines in a cell: the heavier arm of each
    let (a, b) = (cx.r.below(256) as u8, cx.r.below(256) as u8);
    let q = |v: u8| (v & 3, v >> 2 & 3, v >> 4 & 3, v >> 6);
    ensure_eq!(combine_quads(q(a), q(b)), (q(a).0.max(q(b).0), q(a).1.max(q(b).1), q(a).2.max(q(b).2), q(a).3.max(q(b).3)), "arms {:?} and {:?} combined", q(a), q(b));
    let d = hash(&(cw, ch, kw, kh, lt, ox, oy, &cx.trace));
    cx.distinct(&d);
    Ok(())
}

fn container(cx: &mut Cx) -> R {
    let n = cx.r.below(7);
    let horiz = cx.r.bool();
    let mut m = Model { kids: (0..n).map(|_| (cx.r.below(14) as i32, cx.r.below(6) as i32, cx.r.chance(7, 8))).collect(), horiz, ox: cx.r.below(3) as u8, oy: cx.r.below(3) as u8, sv: 1 + cx.r.below(2) as i32, sh: 1, chrome: (0, 0, 0, 0) };
    let mut css = format!("Container {{ width: 1fr; height: 1fr; layout: {}; overflow-x: {}; overflow-y: {}; scrollbar-size-vertical: {}; ", if horiz { "horizontal" } else { "vertical" }, ["hidden", "auto", "scroll"][m.ox as usize], ["hidden", "auto", "scroll"][m.oy as usize], m.sv);
    let hidden = cx.r.chance(1, 12);
    if hidden { css.push_str("visibility: hidden; "); }
    if cx.r.chance(2, 3) { css.push_str("background: #102030; "); }
    if cx.r.chance(1, 3) { css.push_str("border: solid white; "); m.chrome = (1, 1, 1, 1); }
    if cx.r.chance(1, 3) { let (v, h) = (cx.r.below(2) as i32, cx.r.below(3) as i32); css.push_str(&format!("padding: {v} {h}; ")); m.chrome = (m.chrome.0 + h, m.chrome.1 + v, m.chrome.2 + h, m.chrome.3 + v); }
    let c = col(&mut cx.r);
    let (lt, name) = *cx.r.pick(&[(1u8, "thin"), (2, "heavy"), (3, "double")]);
    let key = format!("keyline: {name} rgb({}, {}, {}); ", c.r, c.g, c.b);
    let mut rest = String::from("}\n.gone { display: none; }\n");
    for (i, k) in m.kids.iter().enumerate() { rest.push_str(&format!("#w{i} {{ width: {}; height: {}; }}\n", k.0, k.1)); }
    let size = (4 + cx.r.below(30) as u16, 4 + cx.r.below(14) as u16);
    let reg = Region::new(cx.r.below(3) as i32, cx.r.below(3) as i32, size.0 as i32, size.1 as i32);
    let (cw, ch) = (size.0 + 3, size.1 + 3);
    cx.t(format!("{reg:?}\n{css}{key}{rest}"));
    cx.distinct(&(&css, &key, &rest, size));
    let theme = theme();
    let mut ws: Vec<W> = vec![];
    for k in ["", &key] {
        let sheet = parse_stylesheet(&format!("{css}{k}{rest}")).map_err(|e| format!("{e:?}"))?;
        let mut w: W = Box::new(Container::<Msg>::new((0..n).map(|i| { let mut p = Probe::new(i as u32, 1, 1); if !m.kids[i].2 { p.classes.push("gone".into()); } Box::new(p) as W }).collect()));
        w.on_resize(Size::new(cw, ch));
        resolve_styles(w.as_mut(), &sheet, &theme, &mut VecDeque::new());
        ws.push(w);
    }
    for step in 0..1 + cx.r.below(6) {
        let mut out = vec![];
        for w in &mut ws {
            let kind = if (cx.case / 2 + step as u64) % 3 == 0 { MouseEventKind::ScrollUp } else { MouseEventKind::ScrollDown };
            if step > 0 { w.on_mouse(MouseEvent { kind, column: reg.x as u16, row: reg.y as u16, modifiers: KeyModifiers::empty() }, reg); }
            probe::take();
            let mut cv = Canvas::new(cw, ch);
            w.render(&mut cv, reg);
            let drawn: Vec<(u32, (i32, i32, i32, i32))> = probe::take().into_iter().filter_map(|e| if let Ev::Render(u, r) = e { Some((u, r)) } else { None }).collect();
            out.push((drawn, cellv(&cv)));
        }
        ensure_eq!(out[1].0, out[0].0, "children drawn with and without a keyline\n{}", cx.trace.join("\n"));
        let (cr, _, _, _) = m.lay(reg);
        let pos = m.pos();
        let off = out[0].0.first().and_then(|(u, r)| pos.get(u).map(|b| (cr.x + b.0 - r.0, cr.y + b.1 - r.1)));
        let Some(off) = off.or((hidden || pos.is_empty()).then_some((0, 0))) else { cx.count("containers showing no child"); continue };
        let mut l = Lines::default();
        if hidden { cx.count("hidden containers"); } else if !pos.is_empty() && cr.width >= 2 && cr.height >= 2 {
            let (w, h) = (cr.width as i64, cr.height as i64);
            let (mut xs, mut ys) = (BTreeSet::from([0, w - 1]), BTreeSet::from([0, h - 1]));
            for b in pos.values() { if horiz { let e = (b.0 + b.2 - off.0) as i64; if e > 0 && e < w { xs.insert(e); } } else { let e = (b.1 + b.3 - off.1) as i64; if e > 0 && e < h { ys.insert(e); } } }
            l.mesh(&xs.into_iter().collect::<Vec<_>>(), &ys.into_iter().collect::<Vec<_>>(), lt);
            if off.1 > 0 { cx.count("keylines of a scrolled container"); }
        } else { cx.count("containers too small or empty"); if !pos.is_empty() { continue; } }
        let k = same(&out[1].1, &out[0].1, cw as i32, &l, (cr.x, cr.y), cr, &c).map_err(|e| format!("{e}; scrolled by {off:?}\n{}", cx.trace.join("\n")))?;
        cx.add("line cells in containers", k as u64);
        cx.count("containers compared");
    }
    Ok(())
}

fn grid(cx: &mut Cx) -> R {
    let n = 1 + cx.r.below(8);
    let mut p = ComputedStyle::default();
    p.grid.columns = if cx.r.chance(1, 6) { None } else { Some(1 + cx.r.below(4) as u16) };
    p.grid.rows = cx.r.chance(1, 3).then(|| 1 + cx.r.below(4) as u16);
    let spec = |r: &mut Rng, max: usize| lm::sc(1.0 + r.below(max) as f64, *r.pick(&[Unit::Cells, Unit::Fraction, Unit::Fraction, Unit::Auto]));
    if cx.r.chance(1, 3) { for _ in 0..1 + cx.r.below(3) { let s = spec(&mut cx.r, 8); p.grid.column_widths.push(s); } }
    if cx.r.chance(1, 3) { for _ in 0..1 + cx.r.below(3) { let s = spec(&mut cx.r, 3); p.grid.row_heights.push(s); } }
    p.grid.gutter = (lm::sc(cx.r.below(3) as f64, Unit::Cells), lm::sc(cx.r.below(4) as f64, Unit::Cells));
    if cx.r.chance(1, 5) { p.width = Some(lm::sc(0.0, Unit::Auto)); }
    if cx.r.chance(1, 5) { p.height = Some(lm::sc(0.0, Unit::Auto)); }
    lm::chrome(&mut cx.r, &mut p);
    if cx.r.bool() { p.background = Some(RgbaColor::rgb(1, 2, 3)); }
    let kids: Vec<(ComputedStyle, (u16, u16), bool)> = (0..n).map(|_| {
        let mut s = ComputedStyle::default();
        if cx.r.chance(1, 3) { s.grid_placement.row_span = cx.r.below(4) as u16; }
        if cx.r.chance(1, 3) { s.grid_placement.column_span = cx.r.below(4) as u16; }
        let gone = cx.r.chance(1, 12);
        if gone { s.display = tcss::types::Display::None; }
        (s, (1 + cx.r.below(8) as u16, 1 + cx.r.below(3) as u16), gone)
    }).collect();
    let c = col(&mut cx.r);
    let style = *cx.r.pick(&[KeylineStyle::Thin, KeylineStyle::Heavy, KeylineStyle::Double]);
    let lt = style.line_type();
    let size = (2 + cx.r.below(40) as u16, 2 + cx.r.below(22) as u16);
    let reg = Region::new(cx.r.below(3) as i32, cx.r.below(3) as i32, size.0 as i32, size.1 as i32);
    let (cw, ch) = (size.0 + 3, size.1 + 3);
    cx.t(format!("{reg:?} {:?} width {:?} height {:?} border {:?} padding {:?} children (spans, size, gone) {:?} {style:?}", p.grid, p.width, p.height, (&p.border.top.kind, &p.border.right.kind, &p.border.bottom.kind, &p.border.left.kind), p.padding, kids.iter().map(|k| (k.0.grid_placement.row_span, k.0.grid_placement.column_span, k.1, k.2)).collect::<Vec<_>>()));
    let d = hash(&cx.trace);
    cx.distinct(&d);
    let mut g: Grid<Msg> = Grid::new(kids.iter().enumerate().map(|(i, k)| { let mut w = Probe::new(i as u32, k.1.0, k.1.1); w.style = k.0.clone(); Box::new(w) as W }).collect());
    let mut draw = |p: &ComputedStyle| { g.set_style(p.clone()); probe::take(); let mut cv = Canvas::new(cw, ch); g.render(&mut cv, reg); let d: Vec<(u32, (i32, i32, i32, i32))> = probe::take().into_iter().filter_map(|e| if let Ev::Render(u, r) = e { Some((u, r)) } else { None }).collect(); (d, cellv(&cv)) };
    let blank = draw(&{ let mut q = p.clone(); q.grid = Default::default(); q });
    p.keyline = Keyline { style, color: c.clone() };
    if cx.r.chance(1, 15) {
        let mut q = p.clone();
        q.visibility = tcss::types::Visibility::Hidden;
        let with = draw(&q);
        q.keyline.color = RgbaColor::rgb(c.b, c.r ^ 1, c.g);
        ensure!(with == draw(&q), "an invisible grid draws its keylines\n{}", cx.trace.join("\n"));
        cx.count("hidden grids");
        return Ok(());
    }
    let (drawn, cells) = draw(&p);
    let edge = |e: &tcss::types::border::BorderEdge| !matches!(e.kind, tcss::types::border::BorderKind::None | tcss::types::border::BorderKind::Hidden) as i32;
    let (l, t, r, b) = (edge(&p.border.left) + p.padding.left.value as i32, edge(&p.border.top) + p.padding.top.value as i32, edge(&p.border.right) + p.padding.right.value as i32, edge(&p.border.bottom) + p.padding.bottom.value as i32);
    let inner = Region::new(reg.x + l, reg.y + t, (reg.width - l - r).max(0), (reg.height - t - b).max(0));
    let nodes: Vec<lm::Node> = kids.iter().map(|k| lm::Node { size: Size::new(k.1.0, k.1.1), area: 0 }).collect();
    let mk: Vec<lm::Kid> = kids.iter().enumerate().filter(|(_, k)| !k.2).map(|(i, k)| lm::Kid { idx: i, st: k.0.clone(), n: &nodes[i] }).collect();
    let tr = cx.trace.join("\n");
    let room = (inner.x, inner.y, (inner.width - 2).max(0), (inner.height - 2).max(0));
    let (place, occ, tw, th, gv, gh) = lm::grid_tracks(&p, &mk, room, &lm::GridOpts { min_col: None });
    // nothing is drawn outside
    for (i, (a, b)) in cells.iter().zip(&blank.1).enumerate() { let (x, y) = (i as i32 % cw as i32, i as i32 / cw as i32); if !inner.contains_point(x, y) { ensure!(a == b, "cell {x},{y} outside the content is {:?} instead of {:?}\n{tr}", a.symbol, b.symbol); } }
    if inner.width < 4 || inner.height < 4 || mk.is_empty() { cx.count("grids too small or empty"); return Ok(()); }
    let want: Vec<(u32, (i32, i32, i32, i32))> = place.iter().map(|(i, q)| (*i as u32, (q.0 + 1, q.1 + 1, q.2, q.3))).collect();
    ensure_eq!(drawn, want, "where the children are drawn (inside the outer line)\n{tr}");
    let (sw, sh) = (tw.iter().sum::<i32>() + gh * (tw.len() as i32 - 1), th.iter().sum::<i32>() + gv * (th.len() as i32 - 1));
    if sw > room.2 || sh > room.3 { cx.count("grids that do not fit"); return Ok(()); }
    let ends = |t: &[i32], g: i32, last: i32| { let mut v = vec![0i64]; let mut o = 0; for s in &t[..t.len() - 1] { o += s + g; v.push(o as i64); } v.push(last as i64); v };
    let (xs, ys) = (ends(&tw, gh, inner.width - 1), ends(&th, gv, inner.height - 1));
    let mut ln = Lines::default();
    ln.cells(&xs, &ys, &|r, c| occ[r][c], lt);
    // the same picture without lines: the children where they are now, on the grid's own background
    let mut cv = Canvas::new(cw, ch);
    { let mut q = p.clone(); q.keyline = Keyline::default(); let e: Grid<Msg> = { let mut e = Grid::new(vec![]); e.set_style(q); e }; e.render(&mut cv, reg); }
    cv.push_clip(inner);
    for (i, q) in &want { let mut w = Probe::new(*i, 1, 1); w.style = kids[*i as usize].0.clone(); w.render(&mut cv, Region::new(q.0, q.1, q.2, q.3)); }
    cv.pop_clip();
    let k = same(&cells, &cellv(&cv), cw as i32, &ln, (inner.x, inner.y), inner, &c).map_err(|e| format!("{e}\n{tr}"))?;
    // with gutters, no line crosses a child
    if gv > 0 && gh > 0 { for (i, q) in &want { for y in q.1..q.1 + q.3 { for x in q.0..q.0 + q.2 { if inner.contains_point(x, y) { let g = &cells[(y * cw as i32 + x) as usize]; ensure!(probe::of_glyph(&g.symbol) == Some(*i), "cell {x},{y} of child {i} shows {:?}\n{tr}", g.symbol); } } } cx.count("children free of lines"); } }
    cx.add("line cells in grids", k as u64);
    cx.count("grids compared");
    if kids.iter().any(|k| k.0.grid_placement.row_span > 1 || k.0.grid_placement.column_span > 1) { cx.count("grids with spanning children"); }
    Ok(())
}
