//! P19: a mouse event reaches exactly the widget whose cells are shown under the pointer, with the region it was drawn in.
use crate::core::*;
use crate::probe::{self, Ev};
use crate::wtree::*;
use crate::{ensure, ensure_eq};
use std::collections::{HashMap, VecDeque};
use tcss::parser::parse_stylesheet;
use tcss::types::Theme;
use textual::canvas::{Canvas, Region};
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::Widget;
use textual::widget::app_widget::AppWidget;
use textual::widget::screen::Screen;
use textual::{KeyModifiers, MouseEvent, MouseEventKind, Size};
use crossterm::event::MouseButton;

pub fn prop() -> Prop {
    Prop { id: "P19", quick: 12_000, thorough: 400_000, run, workers: 8,
        rule: "each case is one tree of the library's containers (1-40 nodes, depth up to 5) with recording leaves that fill their region with a glyph of their own, one random stylesheet of sizes, margins, borders, padding, docks, layers, offsets, absolute positions, overflow and display, one screen size, and a history of 2-14 mouse events (moves, presses, releases, wheel), resizes and display changes with a render after each; after every event the leaves' logs are compared with what the cell under the pointer shows; distinct = distinct (tree, stylesheet, history)",
        assumptions: &["containers are given an opaque background, so the cell under the pointer shows the topmost widget there", "leaves with visibility: hidden are left out"] }
}

pub fn len(r: &mut Rng, vertical: bool) -> String {
    match r.below(12) {
        0..=4 => format!("{}", if vertical { r.below(9) } else { r.below(30) }),
        5 => format!("{}fr", 1 + r.below(3)),
        6 | 7 => format!("{}%", r.pick(&[10, 25, 50, 75, 100, 130])),
        8 => format!("{}{}", r.pick(&[10, 30, 50, 100]), r.pick(&["vw", "vh", "w", "h"])),
        _ => "auto".into(),
    }
}
pub fn box_css(r: &mut Rng, is_box: bool, overlap: bool) -> String {
    let mut s = String::new();
    if r.chance(1, 2) { s.push_str(&format!("width: {}; ", len(r, false))); }
    if r.chance(1, 2) { s.push_str(&format!("height: {}; ", len(r, true))); }
    if r.chance(1, 8) { s.push_str(&format!("{}-{}: {}; ", r.pick(&["min", "max"]), r.pick(&["width", "height"]), r.below(12))); }
    if r.chance(1, 5) { s.push_str(&format!("margin: {} {}; ", r.below(3), r.below(4))); }
    if r.chance(1, 5) { s.push_str(&format!("padding: {} {}; ", r.below(3), r.below(4))); }
    if r.chance(1, 4) { s.push_str(&format!("border{}: {} red; ", r.pick(&["", "", "-top", "-left", "-right", "-bottom"]), r.pick(&["solid", "heavy", "tall", "round", "hkey", "vkey", "outer", "none", "blank", "thick"]))); }
    if r.chance(1, 10) { s.push_str(&format!("box-sizing: {}; ", r.pick(&["content-box", "border-box"]))); }
    if overlap {
        if r.chance(1, 8) { s.push_str(&format!("dock: {}; ", r.pick(&["top", "left", "right", "bottom"]))); }
        if r.chance(1, 8) { s.push_str(&format!("layer: {}; ", r.pick(&["base", "above", "top"]))); }
        if r.chance(1, 8) { s.push_str(&format!("offset: {} {}; ", r.i32(-6, 9), r.i32(-4, 5))); }
        if r.chance(1, 12) { s.push_str("position: absolute; "); }
    }
    if is_box {
        if r.chance(1, 3) { s.push_str(&format!("layout: {}; ", if overlap { *r.pick(&["vertical", "horizontal", "grid"]) } else { *r.pick(&["vertical", "horizontal"]) })); }
        if r.chance(1, 4) { s.push_str(&format!("grid-size: {} {}; ", 1 + r.below(4), r.below(4))); }
        if r.chance(1, 6) { s.push_str(&format!("grid-gutter: {} {}; ", r.below(3), r.below(3))); }
        if r.chance(1, 3) { s.push_str(&format!("overflow: {} {}; ", r.pick(&["auto", "hidden", "scroll", "auto"]), r.pick(&["auto", "hidden", "scroll", "auto"]))); }
        if r.chance(1, 5) { s.push_str(&format!("align: {} {}; ", r.pick(&["left", "center", "right"]), r.pick(&["top", "middle", "bottom"]))); }
        if r.chance(1, 8) { s.push_str("scrollbar-gutter: stable; "); }
        if r.chance(1, 8) { s.push_str(&format!("scrollbar-size: {} {}; ", r.below(3), r.below(3))); }
        if overlap && r.chance(1, 2) { s.push_str(r.pick::<&str>(&["layers: base above top; ", "layers: top base; ", "layers: above base top; "])); }
    }
    s
}
pub fn ids(n: &mut N) { n.id = Some(format!("w{}", n.uid)); n.disabled = false; n.classes.clear(); for k in &mut n.kids { ids(k) } }
pub fn tree_css(r: &mut Rng, n: &N, overlap: bool, out: &mut String) {
    if !n.k.single() {
        let d = box_css(r, n.k.is_box(), overlap);
        if !d.is_empty() { out.push_str(&format!("#w{} {{ {} }}\n", n.uid, d)); }
    }
    // without overlap, cells of a grid must not outgrow it
    for k in &n.kids { if overlap || !matches!(n.k, K::Grid | K::ItemGrid) { tree_css(r, k, overlap, out) } }
}
pub fn theme() -> Theme { Theme::standard_themes().get("textual-dark").cloned().unwrap() }

fn run(cx: &mut Cx) -> R {
    let overlap = cx.r.chance(1, 2);
    let boxes: &[K] = if overlap { &[K::Container, K::Container, K::Vertical, K::Horizontal, K::Grid, K::ItemGrid, K::Scrollable, K::VScroll, K::HScroll] } else { BOXES };
    let o = Opts { leaves: &[K::Probe], boxes, depth: 1 + cx.r.below(4), fan: 1 + cx.r.below(5), wide: false };
    let mut next = 0;
    let mut n = gen_tree(&mut cx.r, &o, &mut next, o.depth);
    if next > 100 { return Ok(()); }
    ids(&mut n);
    let mut css = String::from("Screen, AppWidget, Container, Vertical, Horizontal, Grid, ItemGrid, ScrollableContainer, VerticalScroll, HorizontalScroll { background: #102030; }\n.gone { display: none; }\n");
    if cx.r.chance(1, 3) { css.push_str(&format!("Screen {{ {} }}\n", box_css(&mut cx.r, true, false))); }
    tree_css(&mut cx.r, &n, overlap, &mut css);
    let sheet = match parse_stylesheet(&css) { Ok(s) => s, Err(e) => return Err(format!("stylesheet rejected: {e:?}\n{css}")) };
    let theme = theme();
    let mut shape = String::new();
    show(&n, 0, &mut shape);
    cx.t(shape.clone());
    cx.t(css.clone());
    let kind = cx.r.below(3);
    let inner = build(&n);
    let mut root: W = match kind { 0 => Box::new(Screen::new(vec![inner])), 1 => Box::new(AppWidget::new_single(Box::new(Screen::new(vec![inner])))), _ => inner };
    let mut size = (10 + cx.r.below(60) as u16, 4 + cx.r.below(30) as u16);
    let inset = kind == 2 && cx.r.bool();
    let mut h = hash(&(&shape, &css, size, kind));
    probe::take();
    root.on_resize(Size::new(size.0, size.1));
    resolve_styles(root.as_mut(), &sheet, &theme, &mut VecDeque::new());
    let mut cv = Canvas::new(size.0, size.1);
    let mut regions: HashMap<u32, (i32, i32, i32, i32)> = HashMap::new();
    let draw = |root: &mut W, size: (u16, u16), cv: &mut Canvas, regions: &mut HashMap<u32, (i32, i32, i32, i32)>| -> Result<Region, String> {
        resolve_dirty_styles(root.as_mut(), &sheet, &theme, &mut VecDeque::new(), false, &InheritedContext::default());
        *cv = Canvas::new(size.0, size.1);
        let reg = if inset { Region::new(2, 1, size.0 as i32 - 5, size.1 as i32 - 2) } else { Region::new(0, 0, size.0 as i32, size.1 as i32) };
        probe::take();
        root.render(cv, reg);
        regions.clear();
        for e in probe::take() { if let Ev::Render(u, r) = e { if regions.insert(u, r).is_some() { return Err(format!("probe {u} was drawn twice in one frame")); } } }
        Ok(reg)
    };
    let mut reg = draw(&mut root, size, &mut cv, &mut regions)?;
    let mut down: Option<(u16, u16)> = None;
    for _ in 0..2 + cx.r.below(12) {
        match cx.r.below(14) {
            0 => {
                size = (10 + cx.r.below(60) as u16, 4 + cx.r.below(30) as u16);
                cx.t(format!("resize {size:?}"));
                h = hash(&(h, size));
                root.on_resize(Size::new(size.0, size.1));
                reg = draw(&mut root, size, &mut cv, &mut regions)?;
                continue;
            }
            1 => {
                let i = cx.r.below(next as usize + 2);
                h = hash(&(h, i));
                nth(root.as_mut(), i, &mut |w| if w.type_name() == "Probe" { w.toggle_class("gone") });
                cx.t(format!("toggle display of node {i}"));
                reg = draw(&mut root, size, &mut cv, &mut regions)?;
                continue;
            }
            _ => {}
        }
        let (mut x, mut y) = (cx.r.below(size.0 as usize) as u16, cx.r.below(size.1 as usize) as u16);
        if cx.r.chance(1, 2) && !regions.is_empty() {
            // aim at a probe's edge or inside
            let mut ks: Vec<u32> = regions.keys().copied().collect();
            ks.sort();
            let q = regions[cx.r.pick(&ks)];
            x = cx.r.i32(q.0 - 1, q.0 + q.2).clamp(0, size.0 as i32 - 1) as u16;
            y = cx.r.i32(q.1 - 1, q.1 + q.3).clamp(0, size.1 as i32 - 1) as u16;
        }
        let ev = *cx.r.pick(&[MouseEventKind::Moved, MouseEventKind::Moved, MouseEventKind::Down(MouseButton::Left), MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left), MouseEventKind::Down(MouseButton::Right), MouseEventKind::ScrollDown, MouseEventKind::ScrollDown, MouseEventKind::ScrollUp, MouseEventKind::ScrollRight, MouseEventKind::ScrollLeft]);
        let idx = y as usize * size.0 as usize + x as usize;
        let shown = probe::of_glyph(&cv.cell_at(idx).symbol);
        cx.t(format!("{ev:?} at {x},{y} (shows probe {shown:?})"));
        h = hash(&(h, x, y, format!("{ev:?}")));
        if matches!(ev, MouseEventKind::Moved) { root.clear_hover(); }
        probe::take();
        let e = MouseEvent { kind: ev, column: x, row: y, modifiers: KeyModifiers::empty() };
        let with_sender = cx.r.bool();
        let res = if with_sender { root.on_mouse_with_sender(e, reg) } else { root.on_mouse(e, reg).map(|m| (m, textual::widget::SenderInfo { id: None, type_name: "" })) };
        let got: Vec<Ev> = probe::take().into_iter().filter(|e| matches!(e, Ev::Mouse(..))).collect();
        let wheel = matches!(ev, MouseEventKind::ScrollDown | MouseEventKind::ScrollUp | MouseEventKind::ScrollLeft | MouseEventKind::ScrollRight);
        // a release after a press elsewhere may belong to a scrollbar being dragged
        let captured = matches!(ev, MouseEventKind::Up(_)) && down.is_some_and(|d| d != (x, y));
        if let MouseEventKind::Down(MouseButton::Left) = ev { down = Some((x, y)); }
        let ctx = |cx: &Cx| cx.trace.join("\n");
        match shown {
            None => { ensure!(got.is_empty(), "a widget not shown at the pointer received the event: {got:?}\n{}", ctx(cx)); ensure!(res.is_none(), "a message came from a cell that shows no widget: {res:?}"); cx.count("events beside widgets"); }
            Some(u) => {
                let q = *regions.get(&u).ok_or("shown but not drawn")?;
                if got.is_empty() && (wheel || captured) { cx.count(if wheel { "wheel events consumed by a container" } else { "captured releases" }); }
                else {
                    ensure_eq!(got, vec![Ev::Mouse(u, q, ev, x, y)], "events received for {ev:?} at {x},{y}, which shows probe {u}\n{}", ctx(cx));
                    ensure!(res.as_ref().is_some_and(|(m, _)| *m == Msg::Probe(u, format!("{ev:?}"))), "the widget's message was lost: {res:?}\n{}", ctx(cx));
                    if with_sender { ensure_eq!(res.as_ref().map(|(_, s)| s.id.clone()), Some(Some(format!("w{u}"))), "sender of the message\n{}", ctx(cx)); }
                    cx.count("events on widgets");
                    if (q.0, q.1) != (reg.x, reg.y) && probe::of_glyph(&cv.cell_at(idx).symbol).is_some() { cx.count("events on displaced widgets"); }
                }
            }
        }
        if matches!(ev, MouseEventKind::Moved) {
            let mut hov = vec![];
            walk(root.as_mut(), 0, &mut |w, _| if w.type_name() == "Probe" && w.get_state().contains(tcss::WidgetStates::HOVER) && w.participates_in_layout() { hov.push(w.id().unwrap().to_string()) });
            ensure_eq!(hov, shown.iter().map(|u| format!("w{u}")).collect::<Vec<_>>(), "widgets in hover state after the pointer moved to {x},{y}\n{}", ctx(cx));
        }
        let before: Vec<_> = cellv(&cv).iter().map(|c| probe::of_glyph(&c.symbol)).collect();
        reg = draw(&mut root, size, &mut cv, &mut regions)?;
        if wheel && cellv(&cv).iter().map(|c| probe::of_glyph(&c.symbol)).collect::<Vec<_>>() != before { cx.count("wheel scrolled"); }
    }
    cx.distinct(&h);
    cx.sample(|| shape);
    Ok(())
}
pub fn cellv(c: &Canvas) -> Vec<textual::canvas::Cell> { let (w, h) = c.size(); (0..w as usize * h as usize).map(|i| c.cell_at(i).clone()).collect() }
