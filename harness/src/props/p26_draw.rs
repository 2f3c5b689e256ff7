//! P26: drawing is total, repeatable, confined to its region and independent of history.
use super::p19_mouse::{cellv, theme};
use crate::core::*;
use crate::css_gen as cg;
use crate::wtree::*;
use crate::{ensure, ensure_eq};
use std::collections::VecDeque;
use tcss::types::RgbaColor;
use textual::Size;
use textual::canvas::{Canvas, Region, TextAttributes};
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::app_widget::AppWidget;
use textual::widget::screen::{Breakpoint, Screen};

pub fn prop() -> Prop {
    Prop { id: "P26", quick: 8_000, thorough: 600_000, run, workers: 8,
        rule: "each case is one tree (1-40 nodes) of every kind of widget, a random stylesheet of 1-14 rules over all known properties (a part of the values extreme), and canvases of 0x0 to 130x60 cells; the tree is drawn at 1-5 sizes, restyled (fully, or only what a resize made dirty), resized along one or both axes and drawn again, under default and random responsive breakpoints; every drawing must return, equal a second drawing of the same tree and that of a freshly built and styled tree, and leave the cells outside its region alone; distinct = distinct (tree, sheet, sizes)",
        assumptions: &["no input events between drawings", "widgets that show the time or an animation are left out of the comparisons", "placeholders take the next colour of a palette when built, so trees with them are not compared with fresh ones", "the layout keyword is not changed by the sheets: a plain container advertises its layout as a type name", "sizes are below about 200 cells or 300% per level, since drawing time grows with the area"] }
}

/// class names of the responsive breakpoints
const RESP: &[&str] = &["-narrow", "-wide", "-short", "-tall", "-mid"];
const H1: &[Breakpoint] = &[(0, "-narrow"), (40, "-mid"), (80, "-wide")];
const H2: &[Breakpoint] = &[(20, "-wide")];
const V1: &[Breakpoint] = &[(0, "-short"), (10, "-mid"), (30, "-tall")];
const V2: &[Breakpoint] = &[(5, "-tall")];
const NONE: &[Breakpoint] = &[];
/// the last breakpoint whose threshold the size reaches
fn resp(b: &[Breakpoint], n: u16) -> Option<&'static str> { let mut c = None; for (t, k) in b { if n >= *t { c = Some(*k); } } c }

/// keyless generated rules over everything in the tree
fn sheet(r: &mut Rng, extreme: bool) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(14) {
        let sel = match r.below(8) {
            0 => "*".to_string(),
            1 => format!(".{}", r.pick(CLASSES)),
            2 => format!("#w{}", r.below(12)),
            3 => "Screen".into(),
            4 => format!("Screen.{}{}", r.pick(RESP), r.pick(&["", " *", " Static", " > *"])),
            _ => r.pick(&["Static", "Label", "Button", "Switch", "Input", "OptionList", "Placeholder", "Ruler", "Header", "Container", "Vertical", "Horizontal", "Grid", "ItemGrid", "ScrollableContainer", "VerticalScroll", "HorizontalScroll", "Center", "Middle", "LoadingIndicator"]).to_string(),
        };
        s.push_str(&format!("{sel} {{ "));
        for _ in 0..1 + r.below(5) {
            if extreme && r.chance(1, 3) {
                let v = *r.pick(&["0", "1", "200", "500", "900", "0.01", "300%", "150vw", "5000fr", "0fr", "-1", "-300"]);
                let n = *r.pick(&["0", "1", "255", "100", "3"]);
                s.push_str(&match r.below(9) {
                    0 => format!("width: {v};"), 1 => format!("height: {v};"), 2 => format!("min-width: {v};"), 3 => format!("max-height: {v};"),
                    4 => format!("margin: {n} {n};"), 5 => format!("padding: {n};"), 6 => format!("offset: {v} {v};"), 7 => format!("grid-size: {n} {n};"), _ => format!("grid-gutter: {n} {n};"),
                });
            } else {
                // a plain container advertises its current layout as a type name, so `layout` feeds back into matching
                let t = loop { let d = cg::decl(r); let t = cg::write_decl(r, &d, false, false); if !t.trim_start().to_lowercase().starts_with("layout") { break t; } };
                s.push_str(&tame(&t));
                if !s.trim_end().ends_with(';') { s.push(';'); }
            }
            s.push(' ');
        }
        s.push_str("}\n");
    }
    s
}

/// cuts numbers down to 199 (colours excepted): drawing time grows with the area
fn tame(t: &str) -> String {
    let (mut out, mut run, mut hash) = (String::new(), String::new(), false);
    for c in t.chars() {
        if c == '#' { hash = true; } else if hash && !c.is_ascii_hexdigit() { hash = false; }
        if c.is_ascii_digit() && !hash { run.push(c); if run.len() > if run.starts_with('1') { 3 } else { 2 } { continue; } } else { run.clear(); }
        out.push(c);
    }
    out
}

fn style(root: &mut W, css: &tcss::parser::StyleSheet, w: u16, h: u16) {
    root.on_resize(Size::new(w, h));
    resolve_styles(root.as_mut(), css, &theme(), &mut VecDeque::new());
}
fn draw(root: &W, w: u16, h: u16, reg: Region) -> Canvas {
    let mut c = Canvas::new(w, h);
    for y in 0..h as i32 { c.put_str(0, y, &"~".repeat(w as usize), Some(RgbaColor::rgb(1, 2, 3)), Some(RgbaColor::rgb(4, 5, 6)), TextAttributes { italic: true, ..Default::default() }); }
    root.render(&mut c, reg);
    c
}

fn run(cx: &mut Cx) -> R {
    let still = cx.r.chance(7, 8);
    let leaves: &[K] = if still { &[K::Static, K::Static, K::Label, K::Button, K::Switch, K::Input, K::OptionList, K::Placeholder, K::Ruler] } else { LEAVES };
    let o = Opts { leaves, boxes: BOXES, depth: 1 + cx.r.below(4), fan: 1 + cx.r.below(5), wide: true };
    let mut next = 0;
    let n = gen_tree(&mut cx.r, &o, &mut next, o.depth);
    if next > 40 { return Ok(()); }
    fn has(n: &N, k: K) -> bool { n.k == k || n.kids.iter().any(|c| has(c, k)) }
    // a placeholder takes the next colour of a global palette when it is built
    let coloured = has(&n, K::Placeholder);
    let still = !has(&n, K::Loading) && !has(&n, K::Header);
    let extreme = cx.r.chance(1, 3);
    let (css_a, css_b) = (sheet(&mut cx.r, extreme), sheet(&mut cx.r, extreme));
    let kind = cx.r.below(3);
    let bp: Option<(&'static [Breakpoint], &'static [Breakpoint])> = if cx.r.bool() { None } else { Some((*cx.r.pick(&[H1, H2, NONE]), *cx.r.pick(&[V1, V2, NONE]))) };
    let screen = |n: &N| { let s = Screen::new(vec![build(n)]); match bp { Some((h, v)) => s.with_horizontal_breakpoints(h).with_vertical_breakpoints(v), None => s } };
    let make = |n: &N| -> W { match kind { 0 => Box::new(AppWidget::new_single(Box::new(screen(n)))), 1 => Box::new(screen(n)), _ => build(n) } };
    let mut root = make(&n);
    let full = |root: &mut W, css: &str| { let base = textual::testing::build_combined_css(root.as_mut(), css); tcss::parser::parse_stylesheet(&base).map_err(|e| format!("harness: generated sheet rejected: {e:?}\n{css}")) };
    let a = full(&mut root, &css_a)?;
    let b = full(&mut root, &css_b)?;
    let mut shape = String::new();
    show(&n, 0, &mut shape);
    cx.t(format!("root kind {kind}\n{shape}\nsheet A:\n{css_a}\nsheet B:\n{css_b}"));
    let mut h = hash(&(&shape, kind, &css_a, &css_b));
    let steps = 1 + cx.r.below(5);
    let (mut last, mut prev) = ((0u16, 0u16), true);
    for i in 0..steps {
        let (mut w, mut hh) = match cx.r.below(6) { 0 => (cx.r.below(4) as u16, cx.r.below(4) as u16), 1 => (1 + cx.r.below(6) as u16, 1 + cx.r.below(40) as u16), 2 => (1 + cx.r.below(130) as u16, 1 + cx.r.below(4) as u16), _ => (10 + cx.r.below(120) as u16, 3 + cx.r.below(57) as u16) };
        // windows are often resized along one axis only
        if i > 0 { match cx.r.below(5) { 0 | 1 => w = last.0, 2 => hh = last.1, _ => {} } }
        last = (w, hh);
        // a region inside the canvas, most often all of it
        let reg = if cx.r.chance(2, 3) || w < 3 || hh < 3 { Region { x: 0, y: 0, width: w as i32, height: hh as i32 } } else {
            let (x, y) = (cx.r.below(w as usize / 2) as i32, cx.r.below(hh as usize / 2) as i32);
            Region { x, y, width: cx.r.below(w as usize - x as usize) as i32, height: cx.r.below(hh as usize - y as usize) as i32 }
        };
        let sel = if i > 0 && cx.r.bool() { prev } else { cx.r.bool() };
        let css = if sel { &a } else { &b };
        h = hash(&(h, w, hh, super::p26_draw::key(reg), sel));
        cx.t(format!("step {i}: {w}x{hh} region {reg:?} sheet {}", if sel { "A" } else { "B" }));
        // after a resize alone the event loop restyles what is dirty, otherwise everything
        if i > 0 && prev == sel && cx.r.bool() {
            root.on_resize(Size::new(w, hh));
            resolve_dirty_styles(root.as_mut(), css, &theme(), &mut VecDeque::new(), false, &InheritedContext::from_theme(&theme()));
            cx.count("incremental restyles after a resize");
        } else { style(&mut root, css, w, hh); }
        prev = sel;
        if kind == 1 {
            let (h, v) = bp.unwrap_or((&[(0, "-narrow"), (80, "-wide")], &[(0, "-short"), (24, "-tall")]));
            let want: Vec<&str> = resp(h, w).into_iter().chain(resp(v, hh)).collect();
            let mut got = root.get_meta().classes;
            let mut want: Vec<String> = want.iter().map(|s| s.to_string()).collect();
            got.sort(); want.sort(); got.dedup(); want.dedup();
            ensure_eq!(got, want, "responsive classes at {w}x{hh}");
            cx.count("responsive classes compared");
        }
        let c1 = cellv(&draw(&root, w, hh, reg));
        cx.count("drawings");
        if reg.width == 0 || reg.height == 0 { cx.count("empty regions"); }
        for (j, c) in c1.iter().enumerate() {
            let (x, y) = ((j % w as usize) as i32, (j / w as usize) as i32);
            if x >= reg.x && x < reg.x + reg.width && y >= reg.y && y < reg.y + reg.height { continue; }
            // a wide glyph is erased when one half of it is overwritten, but nothing here is wide
            ensure!(c.symbol == "~" && c.attrs.italic, "cell {x},{y} outside the region {reg:?} was changed to {:?} at {w}x{hh}\n{}", c, cx.trace.join("\n"));
        }
        if !still { continue; }
        let c2 = cellv(&draw(&root, w, hh, reg));
        cx.count("compared with a second drawing");
        if let Some(d) = first(&c1, &c2, w) { return Err(format!("drawing the same tree twice differs at {d}\n{}", cx.trace.join("\n"))); }
        if coloured { continue; }
        let mut fresh = make(&n);
        style(&mut fresh, css, w, hh);
        let c3 = cellv(&draw(&fresh, w, hh, reg));
        if let Some(d) = first(&c1, &c3, w) { return Err(format!("the tree draws differently than a freshly built one at {d}\n{}", cx.trace.join("\n"))); }
        cx.count("compared with a fresh tree");
        if i == 0 && cx.r.chance(1, 3) { ensure_eq!(c1.len(), w as usize * hh as usize, "cells"); }
    }
    if extreme { cx.count("cases with extreme values"); }
    cx.distinct(&h);
    Ok(())
}
pub fn key(r: Region) -> (i32, i32, i32, i32) { (r.x, r.y, r.width, r.height) }
fn first(a: &[textual::canvas::Cell], b: &[textual::canvas::Cell], w: u16) -> Option<String> {
    a.iter().zip(b).enumerate().find(|(_, (x, y))| x != y).map(|(i, (x, y))| format!("{},{}: {x:?} and {y:?}", i % w as usize, i / w as usize))
}
