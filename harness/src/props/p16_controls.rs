//! P16 Input editing, P17 OptionList selection, P18 Button and Switch presses: operation histories against reference models.
use crate::core::*;
use crate::gen_text as gt;
use crate::{ensure, ensure_eq};
use crossterm::event::{KeyModifiers, MouseButton};
use std::cell::Cell as StdCell;
use std::rc::Rc;
use tcss::parser::parse_stylesheet;
use tcss::types::Theme;
use textual::canvas::{Canvas, Cell, Region};
use textual::widget::Widget;
use textual::widget::button::Button;
use textual::widget::input::Input;
use textual::widget::option_list::{OptionItem, OptionList};
use textual::widget::switch::Switch;
use textual::{KeyCode, MouseEvent, MouseEventKind};

pub fn prop16() -> Prop {
    Prop { id: "P16", quick: 60_000, thorough: 3_000_000, run: run_input, workers: 8,
        rule: "each case drives one Input through 1-30 operations (characters of every kind, including combining marks, joiners, modifiers, wide and markup characters; Backspace, Delete, arrows, Home, End, irrelevant keys, set_value, set_cursor, placeholder changes, focus and disabled changes) and compares value, cursor and every rendered cell with a reference editor after each; distinct = distinct (operation history) hashes",
        assumptions: &["a character typed into a grapheme cluster joins it and the cursor ends after the cluster holding it", "rendered comparison uses values without control characters"] }
}
pub fn prop17() -> Prop {
    Prop { id: "P17", quick: 15_000, thorough: 1_000_000, run: run_options, workers: 8,
        rule: "each case drives one OptionList with random items (multi-line, markup-like, wide; enabled and disabled) under a random border/padding/margin and size through 1-20 operations (Up, Down, other keys, set_selected, set_items, set_items_with_state, clicks on every kind of cell, wheel, disabled) and compares selection, highlight, reported clicks and the item drawn on each row with a reference model; distinct = distinct operation histories",
        assumptions: &["the item a click means is the one whose text is drawn on the clicked row at the time of the click"] }
}
pub fn prop18() -> Prop {
    Prop { id: "P18", quick: 120_000, thorough: 5_000_000, run: run_press, workers: 8,
        rule: "each case drives one Button or Switch through 1-40 events (mouse moves, presses and releases of any button inside and outside, drags, keys, focus, disabled, loading and visibility changes, programmatic value changes, pointer leaving) and compares every emitted message/action and state flag with a reference state machine; distinct = distinct event histories",
        assumptions: &["a click is a press and a release on the control, with nothing cancelling in between"] }
}

pub fn cells(w: &dyn Widget<u32>, width: u16, height: u16, region: Region) -> Result<Vec<Cell>, String> {
    guard(|| {
        let mut c = Canvas::new(width, height);
        w.render(&mut c, region);
        (0..width as usize * height as usize).map(|i| c.cell_at(i).clone()).collect()
    })
}

fn rgb(r: u8, g: u8, b: u8) -> crossterm::style::Color { crossterm::style::Color::Rgb { r, g, b } }
// ---------------------------------------------------------------- P16
struct Ed { val: String, cur: usize, focused: bool, disabled: bool, ph: Option<String> }
fn gcount(s: &str) -> usize { gt::graphemes(s).len() }
fn gbyte(s: &str, n: usize) -> usize { gt::graphemes(s).iter().take(n).map(|g| g.len()).sum() }

fn typed(r: &mut Rng) -> char {
    match r.below(14) {
        0..=4 => *r.pick(&['a', 'b', 'z', 'Q', '1', '.', 'é']),
        5 => ' ',
        6 => *r.pick(&['[', ']', '\\', '/', '"', '@', '=']),
        7 | 8 => *r.pick(&['日', '語', '한', '。']),
        9 | 10 => *r.pick(&['\u{301}', '\u{308}', '\u{20dd}', '\u{fe0f}']),
        11 => *r.pick(&['👍', '👨', '👩', '❤', '😀']),
        12 => *r.pick(&['\u{200d}', '\u{1f3fd}']),
        _ => *r.pick(&['ᄀ', '가', 'ᆨ', 'ก', 'ำ', '🇯', '🇵']),
    }
}

/// text whose rendering is specified: every cluster one or two cells wide, no cluster that starts with a joiner or mark
fn plain(s: &str) -> bool {
    gt::graphemes(s).iter().all(|g| {
        let c = g.chars().next().unwrap();
        (1..=2).contains(&gt::dwidth(g)) && !matches!(c, '\u{300}'..='\u{36f}' | '\u{20d0}'..='\u{20ff}' | '\u{fe0f}' | '\u{200d}' | '\u{1f3fb}'..='\u{1f3ff}' | '\u{1f1e6}'..='\u{1f1ff}' | 'ᆨ' | 'ำ') && !g.ends_with('\u{200d}')
    })
}

fn run_input(cx: &mut Cx) -> R {
    let mut w = Input::<u32>::new();
    let mut m = Ed { val: String::new(), cur: 0, focused: false, disabled: false, ph: None };
    if cx.r.chance(1, 2) { let p = gt::words(&mut cx.r, 2, 5, true); w = w.with_placeholder(p.clone()); m.ph = Some(p); }
    if cx.r.chance(1, 10) { w = w.with_disabled(true); m.disabled = true; }
    if cx.r.chance(4, 5) { Widget::set_focus(&mut w, true); m.focused = true; }
    let easy = cx.r.chance(1, 3);
    let n = 1 + cx.r.below(30);
    let mut last: Option<Vec<Cell>> = None;
    let mut h = 0u64;
    for _ in 0..n {
        let k = cx.r.below(24);
        let mut key = None;
        match k {
            0..=9 => { let c = if easy { *cx.r.pick(&['a', 'b', ' ', '日', '[']) } else { typed(&mut cx.r) }; key = Some(KeyCode::Char(c)); }
            10 | 11 => key = Some(KeyCode::Backspace),
            12 | 13 => key = Some(KeyCode::Delete),
            14 | 15 => key = Some(KeyCode::Left),
            16 => key = Some(KeyCode::Right),
            17 => key = Some(KeyCode::Home),
            18 => key = Some(KeyCode::End),
            19 => key = Some(*cx.r.pick(&[KeyCode::Up, KeyCode::Down, KeyCode::Tab, KeyCode::Enter, KeyCode::Esc, KeyCode::F(1), KeyCode::PageUp, KeyCode::Insert])),
            20 => { let v = gt::words(&mut cx.r, 2, 4, true); cx.t(format!("set_value({v:?})")); w.set_value(v.clone()); m.val = v; m.cur = m.cur.min(gcount(&m.val)); h = hash(&(h, &m.val)); }
            21 => { let c = cx.r.below(12); cx.t(format!("set_cursor({c})")); w.set_cursor(c); m.cur = c.min(gcount(&m.val)); h = hash(&(h, c)); }
            22 => if cx.r.bool() { m.focused = !m.focused; cx.t(format!("focus {}", m.focused)); w.set_focus(m.focused); } else { m.disabled = !m.disabled; cx.t(format!("disabled {}", m.disabled)); w.set_disabled(m.disabled); },
            _ => if cx.r.bool() { let p = gt::word(&mut cx.r, 4, true); w.set_placeholder(p.clone()); cx.t(format!("placeholder {p:?}")); m.ph = Some(p); } else { w.clear_placeholder(); cx.t("no placeholder"); m.ph = None; },
        }
        h = hash(&(h, k));
        if let Some(key) = key {
            cx.t(format!("{key:?}"));
            h = hash(&(h, format!("{key:?}")));
            let out = guard(|| w.on_event(key))?;
            ensure!(out.is_none(), "the input emitted a message");
            cx.count("keys");
            if !m.disabled {
                match key {
                    KeyCode::Char(c) => {
                        let at = gbyte(&m.val, m.cur);
                        m.val.insert(at, c);
                        let end = at + c.len_utf8();
                        let mut b = 0;
                        m.cur = gt::graphemes(&m.val).iter().take_while(|g| { let s = b; b += g.len(); s < end }).count();
                    }
                    KeyCode::Backspace => if m.cur > 0 { let (a, b) = (gbyte(&m.val, m.cur - 1), gbyte(&m.val, m.cur)); m.val.replace_range(a..b, ""); m.cur -= 1; },
                    KeyCode::Delete => { let (a, b) = (gbyte(&m.val, m.cur), gbyte(&m.val, m.cur + 1)); m.val.replace_range(a..b, ""); m.cur = m.cur.min(gcount(&m.val)); }
                    KeyCode::Left => m.cur = m.cur.saturating_sub(1),
                    KeyCode::Right => m.cur = (m.cur + 1).min(gcount(&m.val)),
                    KeyCode::Home => m.cur = 0,
                    KeyCode::End => m.cur = gcount(&m.val),
                    _ => {}
                }
            }
        }
        ensure_eq!(w.value(), m.val.as_str(), "value after {:?}", cx.trace);
        ensure_eq!(w.cursor(), m.cur, "cursor after {:?} (value {:?})", cx.trace, m.val);
        ensure_eq!(w.is_focused(), m.focused, "focus flag");
        // what is shown
        let (text, dim) = if m.val.is_empty() { (m.ph.clone().unwrap_or_default(), true) } else { (m.val.clone(), false) };
        if !plain(&text) { cx.count("states without specified rendering"); last = None; continue; }
        let width = gt::dwidth(&text) + 2 + cx.r.below(4);
        let got = cells(&w, width as u16, 1, Region::new(0, 0, width as i32, 1))?;
        let mut want: Vec<(String, bool)> = Vec::new();
        let cur = if m.val.is_empty() { 0 } else { m.cur };
        for (i, g) in gt::graphemes(&text).iter().enumerate() {
            let c = m.focused && i == cur;
            want.push((g.to_string(), c));
            for _ in 1..gt::dwidth(g) { want.push((String::new(), c)); }
        }
        if m.focused && cur >= gcount(&text) { want.push((" ".into(), true)); }
        while want.len() < width { want.push((" ".into(), false)); }
        for (x, (s, c)) in want.iter().enumerate() {
            ensure_eq!(if got[x].continuation { "" } else { got[x].symbol.as_str() }, s.as_str(), "cell {x} of the input showing {text:?} after {:?}", cx.trace);
            let is = got[x].bg.as_ref().is_some_and(|b| *b == rgb(0xe0, 0xe0, 0xe0));
            ensure!(is == *c, "cell {x} of the input showing {text:?}, cursor {cur}, focused {}: cursor drawn {is}; after {:?}", m.focused, cx.trace);
            let muted = got[x].fg.as_ref().is_some_and(|b| *b == rgb(0x6d, 0x74, 0x79));
            if !s.trim().is_empty() && !c { ensure!(muted == dim, "cell {x} of {text:?}: placeholder colour {muted}, placeholder shown {dim}"); }
        }
        cx.add("cells compared", width as u64);
        // a changed display asks for a repaint
        if let Some(l) = &last { let a: Vec<_> = l.iter().collect(); let b: Vec<_> = got.iter().collect(); if a.len() != b.len() || a.iter().zip(&b).any(|(a, b)| a.symbol != b.symbol || a.bg != b.bg || a.fg != b.fg) { if l.len() == got.len() { ensure!(w.is_dirty(), "the display changed without the input being marked dirty after {:?}", cx.trace); cx.count("display changes seen flagged"); } } }
        w.mark_clean();
        last = Some(got);
    }
    cx.distinct(&h);
    cx.sample(|| format!("value {:?} cursor {} after {n} operations", m.val, m.cur));
    Ok(())
}

// ---------------------------------------------------------------- P17
struct Opt { items: Vec<(String, bool)>, sel: usize, pending: Option<usize>, disabled: bool }
impl Opt {
    fn norm(&mut self) {
        if self.items.is_empty() { self.sel = 0; return; }
        self.sel = self.sel.min(self.items.len() - 1);
        if self.items[self.sel].1 {
            if let Some(i) = (self.sel + 1..self.items.len()).find(|&i| !self.items[i].1) { self.sel = i }
            else if let Some(i) = (0..self.sel).rev().find(|&i| !self.items[i].1) { self.sel = i }
        }
    }
}
fn items(r: &mut Rng, tag: &mut u32) -> Vec<(String, bool)> {
    (0..r.below(7)).map(|_| {
        *tag += 1;
        let lines = if r.chance(1, 4) { 1 + r.below(3) } else { 1 };
        let t: Vec<String> = (0..lines).map(|l| format!("{}~{}{}", *tag, l, r.pick(&["", "[b]", " x y", "日本", "\\"]))).collect();
        (t.join("\n"), r.chance(1, 4))
    }).collect()
}
fn restyle(w: &mut dyn Widget<u32>, css: &str) -> R {
    let sheet = parse_stylesheet(css).map_err(|e| format!("{e:?}"))?;
    let theme = Theme::standard_themes().get("textual-dark").cloned().unwrap();
    textual::style_resolver::resolve_styles(w, &sheet, &theme, &mut std::collections::VecDeque::new());
    Ok(())
}
fn mouse(kind: MouseEventKind, x: i32, y: i32) -> MouseEvent { MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::empty() } }

fn run_options(cx: &mut Cx) -> R {
    let mut tag = 0;
    let its = items(&mut cx.r, &mut tag);
    let mut m = Opt { items: its.clone(), sel: 0, pending: None, disabled: false };
    m.norm();
    let mut w = OptionList::<u32>::new(vec![]).with_items_with_state(its.iter().map(|(t, d)| OptionItem::new(t.clone()).disabled(*d)).collect());
    let mut css = "OptionList { height: auto; } OptionList > .option-list--option { text-wrap: nowrap; }".to_string();
    let border = *cx.r.pick(&["", "", "border: solid red;", "border-top: heavy white;", "border: tall blue; padding: 1 2;"]);
    let pad = *cx.r.pick(&["", "padding: 1;", "padding: 2 0 0 3;"]);
    let over = *cx.r.pick(&["", "overflow-y: auto;", "overflow-y: scroll;", "overflow: hidden hidden;"]);
    let opt = *cx.r.pick(&["", "padding: 1 0;", "margin: 1 0;", "border: solid green;", "height: 2;"]);
    css.push_str(&format!(" OptionList {{ {border} {pad} {over} }} .option-list--option {{ {opt} }}"));
    cx.t(css.clone());
    let (cw, ch) = (30u16, 4 + cx.r.below(22) as u16);
    let (ox, oy) = (cx.r.i32(0, 4), cx.r.i32(0, 3));
    let region = Region::new(ox, oy, cw as i32 - ox - cx.r.i32(0, 4), ch as i32 - oy - cx.r.i32(0, 2));
    w.on_resize(textual::Size::new(cw, ch));
    let mut h = hash(&(&css, &its, region.x, region.y, region.width, region.height));
    for _ in 0..1 + cx.r.below(20) {
        restyle(&mut w, &css)?;
        let before = cells(&w, cw, ch, region)?;
        // which item's text is drawn on each row
        let rows: Vec<Option<usize>> = (0..ch as usize).map(|y| {
            let t: String = (0..cw as usize).map(|x| if before[y * cw as usize + x].continuation { "" } else { before[y * cw as usize + x].symbol.as_str() }).collect();
            let toks: Vec<String> = t.split(|c: char| !(c.is_ascii_digit() || c == '~')).filter(|s| s.contains('~')).map(|s| s.to_string()).collect();
            toks.first().and_then(|tok| m.items.iter().position(|(s, _)| s.split('\n').any(|l| l.starts_with(tok.as_str()) && !l[tok.len()..].starts_with(|c: char| c.is_ascii_digit()))))
        }).collect();
        cx.add("rows with items", rows.iter().flatten().count() as u64);
        let k = cx.r.below(16);
        h = hash(&(h, k));
        match k {
            0..=2 => { cx.t("Up"); w.on_event(KeyCode::Up); if !m.disabled { if let Some(i) = (0..m.sel.min(m.items.len())).rev().find(|&i| !m.items[i].1) { m.sel = i } } }
            3..=5 => { cx.t("Down"); w.on_event(KeyCode::Down); if !m.disabled { if let Some(i) = (m.sel + 1..m.items.len()).find(|&i| !m.items[i].1) { m.sel = i } } }
            6 => { let key = *cx.r.pick(&[KeyCode::Left, KeyCode::Enter, KeyCode::Char('x'), KeyCode::Home, KeyCode::Tab]); cx.t(format!("{key:?}")); w.on_event(key); }
            7 => { let i = cx.r.below(9); cx.t(format!("set_selected({i})")); w.set_selected(i); m.sel = i; m.norm(); h = hash(&(h, i)); }
            8 => {
                let its = items(&mut cx.r, &mut tag);
                cx.t(format!("items {its:?}"));
                h = hash(&(h, &its));
                if cx.r.bool() { m.items = its.iter().map(|(t, _)| (t.clone(), false)).collect(); w.set_items(its.iter().map(|i| i.0.clone()).collect()); }
                else { w.set_items_with_state(its.iter().map(|(t, d)| OptionItem::new(t.clone()).disabled(*d)).collect()); m.items = its; }
                m.norm();
            }
            9 => { let kind = if cx.r.chance(2, 3) { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp }; cx.t(format!("{kind:?}")); w.on_mouse(mouse(kind, region.x + 1, region.y + 1), region); cx.count("wheel"); }
            10 => { m.disabled = !m.disabled; w.set_disabled(m.disabled); m.disabled = w.is_disabled(); cx.t(format!("disabled {}", m.disabled)); }
            _ => {
                let x = cx.r.i32(region.x - 1, region.x + region.width).max(0);
                // clicks are judged on rows where an item's text is drawn, and off the list
                let y = if cx.r.chance(1, 8) { cx.r.i32(0, ch as i32 - 1) } else { let v: Vec<usize> = (0..rows.len()).filter(|&y| rows[y].is_some()).collect(); if v.is_empty() { continue } *cx.r.pick(&v) as i32 };
                let inside = region.contains_point(x, y);
                let item = rows[y as usize];
                if inside && item.is_none() { continue; }
                cx.t(format!("click {x},{y} (row of {item:?})"));
                h = hash(&(h, x, y));
                // a click on an item's text means that item; beside the text, that item or nothing
                let text = |c: i32| before[(y * cw as i32 + c) as usize].symbol.starts_with(|c: char| c.is_ascii_digit() || c == '~');
                let v: Vec<i32> = (0..cw as i32).filter(|&c| text(c)).collect();
                let x = if inside && !v.is_empty() && cx.r.chance(1, 2) { *cx.r.pick(&v) } else { x };
                let on_text = inside && x < cw as i32 && text(x);
                w.on_mouse(mouse(MouseEventKind::Down(MouseButton::Left), x, y), region);
                w.on_mouse(mouse(MouseEventKind::Up(MouseButton::Left), x, y), region);
                if inside && !on_text && !m.disabled {
                    let i = item.unwrap();
                    match w.take_pending_selection() {
                        None => cx.count("clicks beside the text, ignored"),
                        Some(p) => { ensure_eq!(p, i, "click beside the text of an item, after {:?} with items {:?}", cx.trace, m.items); m.sel = i; cx.count("clicks beside the text"); ensure!(!m.items[i].1, "a disabled item was chosen") }
                    }
                }
                if on_text && !m.disabled { if let Some(i) = item { if !m.items[i].1 { m.sel = i; m.pending = Some(i); cx.count("clicks on enabled items"); } else { cx.count("clicks on disabled items"); } } }
            }
        }
        ensure_eq!(w.selected_index(), m.sel, "selected index after {:?} with items {:?}", cx.trace, m.items);
        ensure_eq!(w.selected(), m.items.get(m.sel).map(|i| i.0.as_str()), "selected text");
        ensure_eq!(w.take_pending_selection(), m.pending.take(), "reported click after {:?} with items {:?}", cx.trace, m.items);
        ensure!(m.items.iter().all(|i| i.1) || !m.items[m.sel].1, "a disabled item is selected");
        let mut hl = Vec::new();
        let mut i = 0;
        w.for_each_child(&mut |c| { if c.has_class("option-list--option-highlighted") { hl.push(i); } i += 1; });
        let want: Vec<usize> = if m.items.is_empty() || m.items[m.sel].1 { vec![] } else { vec![m.sel] };
        ensure_eq!(hl, want, "highlighted options after {:?}", cx.trace);
    }
    cx.distinct(&h);
    Ok(())
}

// ---------------------------------------------------------------- P18
fn run_press(cx: &mut Cx) -> R {
    let region = Region::new(cx.r.i32(0, 5), cx.r.i32(0, 5), cx.r.i32(1, 14), cx.r.i32(1, 4));
    let sw = cx.r.bool();
    let with_action = !sw && cx.r.chance(1, 3);
    let calls = Rc::new(StdCell::new(0u32));
    let (c1, c2) = (calls.clone(), calls.clone());
    let mut value = cx.r.bool();
    let mut w: Box<dyn Widget<u32>> = if sw {
        Box::new(Switch::new(value, move |b| { c1.set(c1.get() + 1); b as u32 }))
    } else {
        let b = Button::<u32>::new("ok").with_on_press(move || { c2.set(c2.get() + 1); 7 });
        Box::new(if with_action { b.with_action("go(1)") } else { b })
    };
    let (mut hov, mut act, mut foc, mut dis, mut load) = (false, false, false, false, false);
    let mut fired = 0u32;
    let mut h = hash(&(sw, with_action, value));
    for _ in 0..1 + cx.r.below(40) {
        let inside = cx.r.chance(2, 3);
        let (x, y) = if inside { (cx.r.i32(region.x, region.x + region.width - 1), cx.r.i32(region.y, region.y + region.height - 1)) } else {
            match cx.r.below(4) { 0 => (region.x + region.width, region.y), 1 => (region.x, region.y + region.height), 2 => ((region.x - 1).max(0), region.y), _ => (region.x + region.width + 3, region.y + region.height + 2) } };
        let inside = x >= region.x && y >= region.y && x < region.x + region.width && y < region.y + region.height;
        let btn = if cx.r.chance(5, 6) { MouseButton::Left } else { *cx.r.pick(&[MouseButton::Right, MouseButton::Middle]) };
        let k = cx.r.below(20);
        h = hash(&(h, k, inside, format!("{btn:?}")));
        let mut out = None;
        let mut want = None;
        let live = !dis && !load;
        let counts = btn == MouseButton::Left || sw;
        match k {
            0..=5 => { cx.t(format!("down {btn:?} inside {inside}")); out = w.on_mouse(mouse(MouseEventKind::Down(btn), x, y), region); if inside && live && counts { act = true; } }
            6..=11 => {
                cx.t(format!("up {btn:?} inside {inside}"));
                out = w.on_mouse(mouse(MouseEventKind::Up(btn), x, y), region);
                if counts { if act && inside && live { want = Some(()); } act = false; }
            }
            12 => { cx.t(format!("moved inside {inside}")); out = w.on_mouse(mouse(MouseEventKind::Moved, x, y), region); hov = inside; }
            13 => { let kd = *cx.r.pick(&[MouseEventKind::Drag(btn), MouseEventKind::ScrollDown, MouseEventKind::ScrollUp]); cx.t(format!("{kd:?}")); out = w.on_mouse(mouse(kd, x, y), region); }
            14 => { let key = *cx.r.pick(&[KeyCode::Enter, KeyCode::Char(' '), KeyCode::Char(' '), KeyCode::Char('x'), KeyCode::Esc, KeyCode::Tab]); cx.t(format!("{key:?}"));
                // keys are given to the focused widget
                if foc { out = w.on_event(key); if live && matches!(key, KeyCode::Enter | KeyCode::Char(' ')) { want = Some(()); } } }
            15 => { foc = !foc; cx.t(format!("focus {foc}")); w.set_focus(foc); }
            16 => { dis = !dis; cx.t(format!("disabled {dis}")); w.set_disabled(dis); }
            17 => { if sw { load = !load; cx.t(format!("loading {load}")); w.set_loading(load); } }
            18 => { cx.t("pointer left"); w.clear_hover(); hov = false; act = false; }
            _ => { hov = cx.r.bool(); cx.t(format!("hover {hov}")); w.set_hover(hov); }
        }
        let pending = w.take_pending_action();
        if want.is_some() { cx.count("presses"); } else { cx.count("events without press"); }
        match want {
            None => { ensure!(out.is_none() && pending.is_none(), "{} fired ({out:?}, {pending:?}) after {:?}", if sw { "switch" } else { "button" }, cx.trace); }
            Some(()) if sw => { value = !value; fired += 1; ensure_eq!(out, Some(value as u32), "message of the switch after {:?}", cx.trace); }
            Some(()) if with_action => { ensure!(out.is_none(), "an action button emitted a message"); ensure_eq!(pending.as_deref(), Some("go(1)"), "action of the button after {:?}", cx.trace); }
            Some(()) => { fired += 1; ensure_eq!(out, Some(7), "message of the button after {:?}", cx.trace); ensure!(pending.is_none(), "a message button raised an action"); }
        }
        ensure_eq!(calls.get(), fired, "handler calls after {:?}", cx.trace);
        use tcss::WidgetStates as S;
        let s = w.get_state();
        let mut e = S::empty();
        if foc { e |= S::FOCUS } if hov { e |= S::HOVER } if act { e |= S::ACTIVE } if dis { e |= S::DISABLED }
        ensure!(s == e, "state flags {s:?}, expected {e:?} after {:?}", cx.trace);
        ensure_eq!(w.is_focusable(), !dis && !load, "focusable after {:?}", cx.trace);
        if sw {
            let got = cells(w.as_ref(), 30, 10, region)?;
            let row: String = (0..30).map(|x| got[region.y as usize * 30 + x].symbol.as_str()).collect();
            if !load && region.width >= 10 && region.height >= 1 { ensure!(row.contains(if value { " ON " } else { " OFF " }), "switch shows {row:?}, value {value}"); }
        }
    }
    cx.distinct(&h);
    Ok(())
}
