//! P20: a scrolling container shows the window of its content at its scroll offset, the offset stays inside the content,
//! every part of the content can be scrolled into view, and the thumb shows where the window is.
use crate::core::*;
use crate::probe::{self, Ev, Probe};
use crate::props::p19_mouse::{cellv, theme};
use crate::wtree::{Msg, W};
use crate::{ensure, ensure_eq};
use crossterm::event::MouseButton;
use std::collections::{HashMap, VecDeque};
use tcss::parser::parse_stylesheet;
use tcss::types::RgbaColor;
use textual::canvas::{Canvas, Cell, Region};
use textual::containers::{container::Container, horizontal_scroll::HorizontalScroll, scrollable::ScrollableContainer, vertical_scroll::VerticalScroll};
use textual::scrollbar::ScrollBarRender;
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::screen::Screen;
use textual::{KeyCode, KeyModifiers, MouseEvent, MouseEventKind, Size};

pub fn prop() -> Prop {
    Prop { id: "P20", quick: 10_000, thorough: 1_000_000, run, workers: 8,
        rule: "one case in four draws scrollbars for 20 random (track, content, window) sizes at increasing offsets and decodes the thumb in eighths of a cell; the others build one scrolling container (Container, ScrollableContainer, VerticalScroll, HorizontalScroll or Screen) with 1-9 children of known sizes, random overflow, border, padding and scrollbar sizes, and apply 3-25 wheel, key, scrollbar click, drag, resize and display-change operations, comparing every frame with the window of the content at the offset shown and finally scrolling to both ends; distinct = distinct (container, sizes, history)",
        assumptions: &["Container is scrolled vertically only (it has no horizontal scrolling)", "dragging the thumb is required to move towards the pointer, not to reach the exact end"] }
}

const TH: crossterm::style::Color = crossterm::style::Color::Rgb { r: 250, g: 10, b: 20 };

/// eighths of the cell covered by the thumb, and whether the covered part is at the start
fn cover(c: &Cell, vertical: bool) -> Option<(u32, bool)> {
    let (f, b) = (c.fg == Some(TH), c.bg == Some(TH));
    let ch = c.symbol.chars().next().unwrap_or(' ');
    let v = ['▁', '▂', '▃', '▄', '▅', '▆', '▇'].iter().position(|&x| x == ch).map(|i| i as u32 + 1);
    let h = ['▏', '▎', '▍', '▌', '▋', '▊', '▉'].iter().position(|&x| x == ch).map(|i| i as u32 + 1);
    match if vertical { v } else { h } {
        None if ch == ' ' => Some((if b { 8 } else { 0 }, true)),
        None => None,
        // the glyph covers the end of a vertical cell, the start of a horizontal one
        Some(k) => Some(if f && !b { (k, !vertical) } else if b && !f { (8 - k, vertical) } else if b { (8, true) } else { (0, true) }),
    }
}
/// thumb as (start, end) in eighths
fn decode(cells: &[Cell], vertical: bool) -> Result<Option<(u32, u32)>, String> {
    let mut start = None;
    let mut end = 0u32;
    for (i, c) in cells.iter().enumerate() {
        let (k, at_start) = cover(c, vertical).ok_or_else(|| format!("cell {i} of the scrollbar shows {:?}", c.symbol))?;
        if k == 0 { continue; }
        let s = i as u32 * 8 + if at_start { 0 } else { 8 - k };
        if start.is_none() { start = Some(s) } else { ensure_eq!(s, end, "the thumb is not in one piece (cell {i})"); }
        end = s + k;
    }
    Ok(start.map(|s| (s, end)))
}

fn thumbs(cx: &mut Cx) -> R {
    for _ in 0..20 {
        let vertical = cx.r.bool();
        let track = 1 + cx.r.below(60) as i32;
        let window = 1 + cx.r.below(60) as i32;
        let more = if cx.r.bool() { 20 } else { 5000 };
        let virt = window + 1 + cx.r.below(more) as i32;
        if virt == track { continue; }
        let thick = 1 + cx.r.below(2) as i32;
        let max = virt - window;
        let mut last: Option<(u32, u32)> = None;
        let mut pos = 0;
        cx.distinct(&(vertical, track, window, virt));
        loop {
            let mut cv = Canvas::new(64, 64);
            let reg = if vertical { Region::new(1, 2, thick, track) } else { Region::new(2, 1, track, thick) };
            let (tc, kc) = (RgbaColor::rgb(250, 10, 20), RgbaColor::rgb(0, 0, 40));
            if vertical { ScrollBarRender::render_vertical(&mut cv, reg, virt as f32, window as f32, pos as f32, tc, kc, true) } else { ScrollBarRender::render_horizontal(&mut cv, reg, virt as f32, window as f32, pos as f32, tc, kc, true) }
            let mut rows = vec![];
            for t in 0..thick { rows.push((0..track).map(|i| { let (x, y) = if vertical { (1 + t, 2 + i) } else { (2 + i, 1 + t) }; cv.cell_at((y * 64 + x) as usize).clone() }).collect::<Vec<Cell>>()); }
            let what = format!("scrollbar of {track} cells, {window} of {virt} shown from {pos}");
            let d = decode(&rows[0], vertical).map_err(|e| format!("{what}: {e}"))?;
            for r in &rows { ensure_eq!(decode(r, vertical)?, d, "{what}: second lane of the thumb"); }
            let (s, e) = match d { Some(d) => d, None => return Err(format!("{what}: no thumb drawn")) };
            let want = (window as f64 * track as f64 / virt as f64).max(1.0) * 8.0;
            let clipped = e == track as u32 * 8;
            ensure!(((e - s) as f64 - want).abs() <= 1.05 || clipped && (e - s) as f64 <= want + 1.05 && (e - s) as f64 >= want - 2.05, "{what}: thumb of {} eighths, expected {want}", e - s);
            let tp = (track as f64 * 8.0 - want) * pos as f64 / max as f64;
            ensure!((s as f64 - tp).abs() <= 1.05, "{what}: thumb starts at {s} eighths, expected {tp}");
            if pos == 0 { ensure_eq!(s, 0, "{what}: start of the thumb"); }
            if pos == max { ensure!(e + 1 >= track as u32 * 8, "{what}: the thumb ends at {e} eighths although the end is shown"); }
            if let Some(l) = last { ensure!(s >= l.0, "{what}: the thumb moved backwards"); }
            // the clickable thumb is the drawn one
            let (bs, be) = ScrollBarRender::thumb_bounds(track, virt as f32, window as f32, pos as f32);
            ensure!(bs >= 0 && bs <= (s / 8) as i32 && bs + 1 >= (s / 8) as i32, "{what}: thumb bounds start at {bs}, drawn from eighth {s}");
            ensure!((be - bs) as f64 * 8.0 >= want - 0.01 && (be - bs) as f64 * 8.0 < want + 8.01, "{what}: thumb bounds {bs}..{be} for a thumb of {want} eighths");
            last = Some((s, e));
            cx.count("scrollbars drawn");
            if pos == max { break; }
            pos = (pos + 1 + cx.r.below(1 + max as usize / 6) as i32).min(max);
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum C { Plain, Scrollable, V, H, Screen }

pub struct Model { pub kids: Vec<(i32, i32, bool)>, pub horiz: bool, pub ox: u8, pub oy: u8, pub sv: i32, pub sh: i32, pub chrome: (i32, i32, i32, i32) }
impl Model {
    /// content viewport and virtual size for a region
    pub fn lay(&self, reg: Region) -> (Region, (i32, i32), bool, bool) {
        let (l, t, r, b) = self.chrome;
        let inner = Region::new(reg.x + l, reg.y + t, (reg.width - l - r).max(0), (reg.height - t - b).max(0));
        let live = || self.kids.iter().filter(|k| k.2);
        let virt = if self.horiz { (live().map(|k| k.0).sum::<i32>(), live().map(|k| k.1).max().unwrap_or(0)) } else { (live().map(|k| k.0).max().unwrap_or(0), live().map(|k| k.1).sum::<i32>()) };
        let (mut v, mut h) = (self.oy == 2, self.ox == 2);
        loop {
            let c = Region::new(inner.x, inner.y, (inner.width - if v { self.sv } else { 0 }).max(0), (inner.height - if h { self.sh } else { 0 }).max(0));
            let (nv, nh) = (v || self.oy == 1 && virt.1 > c.height, h || self.ox == 1 && virt.0 > c.width);
            if (nv, nh) == (v, h) { return (c, virt, v, h); }
            (v, h) = (nv, nh);
        }
    }
    pub fn pos(&self) -> HashMap<u32, (i32, i32, i32, i32)> {
        let mut p = 0;
        self.kids.iter().enumerate().filter(|(_, k)| k.2).map(|(i, k)| { let q = if self.horiz { (p, 0, k.0, k.1) } else { (0, p, k.0, k.1) }; p += if self.horiz { k.0 } else { k.1 }; (i as u32, q) }).collect()
    }
}

fn run(cx: &mut Cx) -> R {
    if cx.r.chance(1, 4) { return thumbs(cx); }
    let c = *cx.r.pick(&[C::Plain, C::Scrollable, C::Scrollable, C::V, C::H, C::Screen]);
    let n = 1 + cx.r.below(9);
    let horiz = match c { C::V => false, C::H => true, _ => cx.r.chance(1, 3) };
    let mut m = Model { kids: (0..n).map(|_| (1 + cx.r.below(30) as i32, 1 + cx.r.below(8) as i32, true)).collect(), horiz, ox: cx.r.below(3) as u8, oy: cx.r.below(3) as u8, sv: 1 + cx.r.below(3) as i32, sh: 1 + cx.r.below(2) as i32, chrome: (0, 0, 0, 0) };
    let name = match c { C::Plain => "Container", C::Scrollable => "ScrollableContainer", C::V => "VerticalScroll", C::H => "HorizontalScroll", C::Screen => "Screen" };
    if c == C::Plain && m.ox != 0 { m.ox = 0; }
    let ov = ["hidden", "auto", "scroll"];
    let mut css = format!("{name} {{ width: 1fr; height: 1fr; layout: {}; overflow-x: {}; overflow-y: {}; background: #101010; scrollbar-size-vertical: {}; scrollbar-size-horizontal: {}; scrollbar-color: #fa0a14; scrollbar-color-hover: #fa0a14; scrollbar-color-active: #fa0a14; scrollbar-background: #000028; scrollbar-background-hover: #000028; scrollbar-background-active: #000028; ", if horiz { "horizontal" } else { "vertical" }, ov[m.ox as usize], ov[m.oy as usize], m.sv, m.sh);
    if cx.r.chance(1, 3) && c != C::Screen { css.push_str("border: solid white; "); m.chrome = (1, 1, 1, 1); }
    if cx.r.chance(1, 3) { let (v, h) = (cx.r.below(2) as i32, cx.r.below(3) as i32); css.push_str(&format!("padding: {v} {h}; ")); m.chrome = (m.chrome.0 + h, m.chrome.1 + v, m.chrome.2 + h, m.chrome.3 + v); }
    css.push_str("}\n.gone { display: none; }\n");
    for (i, k) in m.kids.iter().enumerate() { css.push_str(&format!("#w{i} {{ width: {}; height: {}; }}\n", k.0, k.1)); }
    let sheet = parse_stylesheet(&css).map_err(|e| format!("{e:?}"))?;
    let theme = theme();
    let kids = || (0..n).map(|i| Box::new(Probe::new(i as u32, 1, 1)) as W).collect::<Vec<W>>();
    let mut w: W = match c { C::Plain => Box::new(Container::<Msg>::new(kids())), C::Scrollable => Box::new(ScrollableContainer::new(kids())), C::V => Box::new(VerticalScroll::new(kids())), C::H => Box::new(HorizontalScroll::new(kids())), C::Screen => Box::new(Screen::new(kids())) };
    let mut size = (8 + cx.r.below(40) as u16, 4 + cx.r.below(20) as u16);
    let inset = c != C::Screen && cx.r.chance(1, 3);
    let reg_of = |s: (u16, u16)| if inset { Region::new(3, 1, s.0 as i32 - 4, s.1 as i32 - 2) } else { Region::new(0, 0, s.0 as i32, s.1 as i32) };
    cx.t(format!("{c:?} {size:?} inset {inset}\n{css}"));
    let mut hsh = hash(&(&css, size, inset));
    w.on_resize(Size::new(size.0, size.1));
    resolve_styles(w.as_mut(), &sheet, &theme, &mut VecDeque::new());
    let mut cur: Option<(i32, i32)> = Some((0, 0));
    let mut frames = 0u64;
    // draw, compare the whole frame with the model, return the offset shown
    let mut frame = |cx: &mut Cx, w: &mut W, m: &Model, size: (u16, u16), _k: ()| -> Result<Option<(i32, i32)>, String> {
        resolve_dirty_styles(w.as_mut(), &sheet, &theme, &mut VecDeque::new(), false, &InheritedContext::default());
        let reg = reg_of(size);
        let mut cv = Canvas::new(size.0, size.1);
        probe::take();
        w.render(&mut cv, reg);
        let drawn: Vec<(u32, (i32, i32, i32, i32))> = probe::take().into_iter().filter_map(|e| if let Ev::Render(u, r) = e { Some((u, r)) } else { None }).collect();
        let (cr, virt, v, h) = m.lay(reg);
        if cr.width <= 0 || cr.height <= 0 { return Ok(None); }
        let base = m.pos();
        let flat: Vec<(u32, (i32, i32, i32, i32))> = base.iter().map(|(u, b)| (*u, *b)).collect();
        let (mx, my) = (if m.ox == 0 { 0 } else { (virt.0 - cr.width).max(0) }, if m.oy == 0 { 0 } else { (virt.1 - cr.height).max(0) });
        let (ox, oy) = match drawn.first() { Some((u, r)) => { let b = base.get(u).ok_or_else(|| format!("child {u} is drawn although it is not displayed"))?; (cr.x + b.0 - r.0, cr.y + b.1 - r.1) } None => return Ok(None) };
        let ctx = cx.trace.join("\n");
        // content can always be scrolled inside the hidden axes' own extent; the offset must lie in the content
        ensure!(ox >= 0 && oy >= 0 && ox <= (virt.0 - cr.width).max(0) && oy <= (virt.1 - cr.height).max(0), "scroll offset {ox},{oy} is outside 0,0..{mx},{my} (content {virt:?}, window {}x{})\n{ctx}", cr.width, cr.height);
        for y in 0..size.1 as i32 { for x in 0..size.0 as i32 {
            let shown = probe::of_glyph(&cv.cell_at((y * size.0 as i32 + x) as usize).symbol);
            let want = if cr.contains_point(x, y) { let (px, py) = (x - cr.x + ox, y - cr.y + oy); flat.iter().find(|(_, b)| px >= b.0 && px < b.0 + b.2 && py >= b.1 && py < b.1 + b.3).map(|(u, _)| *u) } else { None };
            ensure!(shown == want, "cell {x},{y} shows child {shown:?}, but at offset {ox},{oy} child {want:?} is there (content window {:?})\n{ctx}", (cr.x, cr.y, cr.width, cr.height));
        } }
        let cells = cellv(&cv);
        let (l, t, r, b) = m.chrome;
        if v && virt.1 > cr.height && m.sv <= reg.width - l - r { let d = decode(&(0..cr.height).map(|y| cells[((cr.y + y) * size.0 as i32 + reg.x + reg.width - r - 1) as usize].clone()).collect::<Vec<_>>(), true)?;
            let (s, e) = d.ok_or_else(|| format!("no vertical thumb\n{ctx}"))?;
            if oy == 0 { ensure_eq!(s, 0, "start of the vertical thumb at the top\n{ctx}"); }
            if oy == virt.1 - cr.height { ensure!(e + 1 >= cr.height as u32 * 8, "vertical thumb ends at {e} eighths of {} at the bottom\n{ctx}", cr.height * 8); }
            cx.count("vertical thumbs"); }
        if h && virt.0 > cr.width && m.sh <= reg.height - t - b { let d = decode(&(0..cr.width).map(|x| cells[((reg.y + reg.height - b - 1) * size.0 as i32 + cr.x + x) as usize].clone()).collect::<Vec<_>>(), false)?;
            let (s, e) = d.ok_or_else(|| format!("no horizontal thumb\n{ctx}"))?;
            if ox == 0 { ensure_eq!(s, 0, "start of the horizontal thumb at the left\n{ctx}"); }
            if ox == virt.0 - cr.width { ensure!(e + 1 >= cr.width as u32 * 8, "horizontal thumb ends at {e} eighths of {} at the right\n{ctx}", cr.width * 8); }
            cx.count("horizontal thumbs"); }
        frames += 1;
        Ok(Some((ox, oy)))
    };
    let o = frame(cx, &mut w, &m, size, ())?;
    if let Some(o) = o { ensure_eq!(o, (0, 0), "offset of a fresh container"); }
    let mev = |k: MouseEventKind, x: i32, y: i32, md: KeyModifiers| MouseEvent { kind: k, column: x as u16, row: y as u16, modifiers: md };
    for _ in 0..3 + cx.r.below(22) {
        let reg = reg_of(size);
        let (cr, virt, v, h) = m.lay(reg);
        if reg.width <= 0 || reg.height <= 0 || cr.width <= 0 || cr.height <= 0 { break; }
        let (mx, my) = ((virt.0 - cr.width).max(0), (virt.1 - cr.height).max(0));
        let (ay, ax) = (m.oy != 0 && my > 0, m.ox != 0 && mx > 0);
        let px = cr.x + cx.r.i32(0, cr.width - 1);
        let py = cr.y + cx.r.i32(0, cr.height - 1);
        let (ox, oy) = cur.unwrap_or((0, 0));
        let k = if cur.is_none() { 11 + cx.r.below(3) } else { cx.r.below(16) };
        // expected direction per axis: -1, 0, 1; must: the offset has to change if it can; most: largest step
        let mut exp: Option<(i32, i32, bool, i32)> = None;
        match k {
            0..=2 => { let d = cx.r.bool(); cx.t(format!("wheel {}", if d { "down" } else { "up" })); w.on_mouse(mev(if d { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp }, px, py, KeyModifiers::empty()), reg); exp = Some((0, if !ay { 0 } else if d { 1 } else { -1 }, true, cr.height.max(3))); }
            3 if c != C::Plain => { let d = cx.r.bool(); cx.t(format!("wheel {}", if d { "right" } else { "left" })); let e = if cx.r.bool() { mev(if d { MouseEventKind::ScrollRight } else { MouseEventKind::ScrollLeft }, px, py, KeyModifiers::empty()) } else { mev(if d { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp }, px, py, *cx.r.pick(&[KeyModifiers::SHIFT, KeyModifiers::CONTROL])) }; w.on_mouse_with_sender(e, reg); exp = Some((if !ax { 0 } else if d { 1 } else { -1 }, 0, true, cr.width.max(3))); }
            4..=6 if matches!(c, C::Scrollable | C::V | C::H) => {
                let key = *cx.r.pick(&[KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right, KeyCode::PageUp, KeyCode::PageDown]);
                cx.t(format!("{key:?}"));
                w.on_event(key);
                exp = Some(match key { KeyCode::Up => (0, -(ay as i32), true, cr.height), KeyCode::Down => (0, ay as i32, true, cr.height), KeyCode::Left => (-(ax as i32), 0, true, cr.width), KeyCode::Right => (ax as i32, 0, true, cr.width), KeyCode::PageUp => (0, -(ay as i32), cr.height > 1, cr.height), _ => (0, ay as i32, cr.height > 1, cr.height) });
            }
            7 if matches!(c, C::Scrollable | C::V | C::H) => {
                let end = cx.r.bool();
                cx.t(if end { "End" } else { "Home" });
                w.on_event(if end { KeyCode::End } else { KeyCode::Home });
                let o = frame(cx, &mut w, &m, size, ())?;
                cur = o;
                let Some(o) = o else { continue };
                let want = (if m.ox == 0 { ox } else if end { mx } else { 0 }, if m.oy == 0 { oy } else if end { my } else { 0 });
                ensure_eq!(o, want, "offset after {} (was {ox},{oy})\n{}", if end { "End" } else { "Home" }, cx.trace.join("\n"));
                continue;
            }
            8 | 9 if v && c != C::Plain && m.sv > 0 => {
                // click the vertical bar's track
                let y = cr.y + cx.r.i32(0, cr.height - 1);
                let (bs, be) = ScrollBarRender::thumb_bounds(cr.height, virt.1 as f32, cr.height as f32, oy as f32);
                let p = y - cr.y;
                let x = reg.x + reg.width - m.chrome.2 - 1;
                cx.t(format!("press the vertical scrollbar at {p} (thumb {bs}..{be})"));
                w.on_mouse(mev(MouseEventKind::Down(MouseButton::Left), x, y, KeyModifiers::empty()), reg);
                if p >= bs && p < be && my > 0 {
                    let to = cr.y + cx.r.i32(0, cr.height - 1);
                    cx.t(format!("drag to {}", to - cr.y));
                    w.on_mouse(mev(MouseEventKind::Drag(MouseButton::Left), x, to, KeyModifiers::empty()), reg);
                    cx.count("drags");
                    exp = Some((0, (to - y).signum() * ay as i32, false, i32::MAX));
                    if to == y { exp = None; }
                } else { cx.count("track clicks"); exp = Some((0, if !ay { 0 } else if p < bs { -1 } else { 1 }, cr.height > 1, cr.height)); }
                w.on_mouse(mev(MouseEventKind::Up(MouseButton::Left), x, y, KeyModifiers::empty()), reg);
            }
            10 if h && c != C::Plain => {
                let x = cr.x + cx.r.i32(0, cr.width - 1);
                let (bs, be) = ScrollBarRender::thumb_bounds(cr.width, virt.0 as f32, cr.width as f32, ox as f32);
                let p = x - cr.x;
                let y = reg.y + reg.height - m.chrome.3 - 1;
                cx.t(format!("press the horizontal scrollbar at {p} (thumb {bs}..{be})"));
                w.on_mouse_with_sender(mev(MouseEventKind::Down(MouseButton::Left), x, y, KeyModifiers::empty()), reg);
                if p >= bs && p < be && mx > 0 {
                    let to = cr.x + cx.r.i32(0, cr.width - 1);
                    cx.t(format!("drag to {}", to - cr.x));
                    w.on_mouse_with_sender(mev(MouseEventKind::Drag(MouseButton::Left), to, y, KeyModifiers::empty()), reg);
                    cx.count("drags");
                    exp = Some(((to - x).signum() * ax as i32, 0, false, i32::MAX));
                    if to == x { exp = None; }
                } else { cx.count("track clicks"); exp = Some((if !ax { 0 } else if p < bs { -1 } else { 1 }, 0, cr.width > 1, cr.width)); }
                w.on_mouse_with_sender(mev(MouseEventKind::Up(MouseButton::Left), x, y, KeyModifiers::empty()), reg);
            }
            11 => { size = (8 + cx.r.below(40) as u16, 4 + cx.r.below(20) as u16); cx.t(format!("resize {size:?}")); w.on_resize(Size::new(size.0, size.1)); hsh = hash(&(hsh, size)); }
            12 => {
                let i = cx.r.below(n);
                m.kids[i].2 = !m.kids[i].2;
                cx.t(format!("toggle child {i}"));
                crate::wtree::walk(w.as_mut(), 0, &mut |x, _| if x.id() == Some(&format!("w{i}")) { x.toggle_class("gone") });
                hsh = hash(&(hsh, i));
            }
            _ => {}
        }
        hsh = hash(&(hsh, k));
        cur = frame(cx, &mut w, &m, size, ())?;
        let Some((nx, ny)) = cur else { continue };
        if let Some((dx, dy, must, most)) = exp {
            let (gx, gy) = (nx - ox, ny - oy);
            let ok = |d: i32, g: i32, o: i32, max: i32| match d { 0 => g == 0, 1 => g >= 0 && (g > 0 || !must || o == max) && g <= most, _ => g <= 0 && (g < 0 || !must || o == 0) && -g <= most };
            ensure!(ok(dx, gx, ox, mx) && ok(dy, gy, oy, my), "the operation moved the window by {gx},{gy} from {ox},{oy} (limits {mx},{my}, expected direction {dx},{dy}, at most {most})\n{}", cx.trace.join("\n"));
            if gx != 0 || gy != 0 { cx.count("windows moved"); }
        }
    }
    // both ends can be reached
    let reg = reg_of(size);
    let (cr, virt, ..) = m.lay(reg);
    if cr.width > 0 && cr.height > 0 && reg.width > 0 && reg.height > 0 {
        let (mx, my) = ((virt.0 - cr.width).max(0), (virt.1 - cr.height).max(0));
        for (down, want) in [(true, my), (false, 0)] {
            if m.oy != 0 { for _ in 0..my + 2 { w.on_mouse(mev(if down { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp }, cr.x, cr.y, KeyModifiers::empty()), reg); if cx.r.chance(1, 20) { frame(cx, &mut w, &m, size, ())?; } } }
            if c != C::Plain && m.ox != 0 { for _ in 0..mx + 2 { w.on_mouse(mev(if down { MouseEventKind::ScrollRight } else { MouseEventKind::ScrollLeft }, cr.x, cr.y, KeyModifiers::empty()), reg); } }
            cx.t(format!("scroll to the {}", if down { "end" } else { "start" }));
            let Some(o) = frame(cx, &mut w, &m, size, ())? else { continue };
            if m.oy != 0 { ensure_eq!(o.1, want, "vertical offset after scrolling to the {}\n{}", if down { "end" } else { "start" }, cx.trace.join("\n")); }
            if c != C::Plain && m.ox != 0 { ensure_eq!(o.0, if down { mx } else { 0 }, "horizontal offset after scrolling to the {}\n{}", if down { "end" } else { "start" }, cx.trace.join("\n")); }
            cx.count("ends reached");
        }
    }
    cx.add("frames compared", frames);
    cx.distinct(&hsh);
    cx.sample(|| cx_sample(c, &css));
    Ok(())
}
fn cx_sample(c: C, css: &str) -> String { format!("{c:?} {css}") }
