//! A leaf widget that records what the library does to it: where it is drawn, which events and messages reach it.
use std::cell::RefCell;
use tcss::{ComputedStyle, WidgetMeta, WidgetStates};
use textual::canvas::{Canvas, Region};
use textual::widget::Widget;
use textual::{KeyCode, MouseEvent, MouseEventKind, Size};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Render(u32, (i32, i32, i32, i32)), Mouse(u32, (i32, i32, i32, i32), MouseEventKind, u16, u16), Key(u32, KeyCode), Hover(u32, bool), Focus(u32, bool), Resize(u32, u16, u16), Bubble(u32, crate::wtree::Msg) }
thread_local! { pub static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) }; }
pub fn log(e: Ev) { LOG.with(|l| l.borrow_mut().push(e)); }
pub fn take() -> Vec<Ev> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
pub fn glyph(uid: u32) -> char { char::from_u32(0x100 + uid).unwrap() }
pub fn of_glyph(s: &str) -> Option<u32> { let c = s.chars().next()? as u32; if (0x100..0x180).contains(&c) { Some(c - 0x100) } else { None } }
pub fn rg(r: Region) -> (i32, i32, i32, i32) { (r.x, r.y, r.width, r.height) }

pub struct Probe { pub uid: u32, pub id: String, pub classes: Vec<String>, pub style: ComputedStyle, pub dirty: bool, pub hover: bool, pub focus: bool, pub focusable: bool, pub disabled: bool, pub visible: bool, pub size: (u16, u16) }
impl Probe {
    pub fn new(uid: u32, w: u16, h: u16) -> Probe {
        Probe { uid, id: format!("w{uid}"), classes: vec![], style: ComputedStyle::default(), dirty: true, hover: false, focus: false, focusable: false, disabled: false, visible: true, size: (w, h) }
    }
}
impl Widget<crate::wtree::Msg> for Probe {
    fn render(&self, canvas: &mut Canvas, region: Region) {
        log(Ev::Render(self.uid, rg(region)));
        if region.width <= 0 || region.height <= 0 { return; }
        let (cw, ch) = canvas.size();
        let (x0, x1) = (region.x.max(0), (region.x + region.width).min(cw as i32));
        let line: String = std::iter::repeat_n(glyph(self.uid), (x1 - x0).max(0) as usize).collect();
        for y in region.y.max(0)..(region.y + region.height).min(ch as i32) {
            canvas.put_str(x0, y, &line, Some(tcss::types::RgbaColor::rgb(255, 255, 255)), Some(tcss::types::RgbaColor::rgb(0, 0, 0)), textual::canvas::TextAttributes::default());
        }
    }
    fn desired_size(&self) -> Size { Size::new(self.size.0, self.size.1) }
    fn get_state(&self) -> WidgetStates {
        let mut s = WidgetStates::empty();
        if self.focus { s |= WidgetStates::FOCUS }
        if self.hover { s |= WidgetStates::HOVER }
        if self.disabled { s |= WidgetStates::DISABLED }
        s
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: "Probe", type_names: vec!["Probe", "Widget", "DOMNode"], id: Some(self.id.clone()), classes: self.classes.clone(), states: self.get_state() }
    }
    fn set_style(&mut self, s: ComputedStyle) { self.style = s }
    fn get_style(&self) -> ComputedStyle { self.style.clone() }
    fn set_focus(&mut self, f: bool) { if self.focus != f { self.focus = f; self.dirty = true; log(Ev::Focus(self.uid, f)); } }
    fn is_focused(&self) -> bool { self.focus }
    fn is_focusable(&self) -> bool { self.focusable && self.visible && !self.disabled }
    fn is_dirty(&self) -> bool { self.dirty }
    fn mark_dirty(&mut self) { self.dirty = true }
    fn mark_clean(&mut self) { self.dirty = false }
    fn on_resize(&mut self, s: Size) { log(Ev::Resize(self.uid, s.width, s.height)) }
    fn on_event(&mut self, key: KeyCode) -> Option<crate::wtree::Msg> {
        log(Ev::Key(self.uid, key));
        if self.focusable && !self.focus { return None; }
        Some(crate::wtree::Msg::Probe(self.uid, format!("{key:?}")))
    }
    fn on_mouse(&mut self, e: MouseEvent, region: Region) -> Option<crate::wtree::Msg> {
        log(Ev::Mouse(self.uid, rg(region), e.kind, e.column, e.row));
        Some(crate::wtree::Msg::Probe(self.uid, format!("{:?}", e.kind)))
    }
    fn set_hover(&mut self, h: bool) -> bool { let c = self.hover != h; self.hover = h; if c { self.dirty = true; log(Ev::Hover(self.uid, h)); } c }
    fn clear_hover(&mut self) { self.set_hover(false); }
    fn is_visible(&self) -> bool { self.visible }
    fn set_visible(&mut self, v: bool) { if self.visible != v { self.visible = v; self.dirty = true } }
    fn is_disabled(&self) -> bool { self.disabled }
    fn set_disabled(&mut self, v: bool) { if self.disabled != v { self.disabled = v; self.dirty = true } }
    fn id(&self) -> Option<&str> { Some(&self.id) }
    fn type_name(&self) -> &'static str { "Probe" }
    fn add_class(&mut self, c: &str) { if !self.has_class(c) { self.classes.push(c.into()); self.dirty = true } }
    fn remove_class(&mut self, c: &str) { let n = self.classes.len(); self.classes.retain(|x| x != c); if self.classes.len() != n { self.dirty = true } }
    fn has_class(&self, c: &str) -> bool { self.classes.iter().any(|x| x == c) }
    fn classes(&self) -> Vec<String> { self.classes.clone() }
}

/// A container that records, and may transform or stop, the messages that bubble through it.
pub struct Hub { pub uid: u32, pub id: String, pub mode: u8, inner: textual::containers::container::Container<crate::wtree::Msg> }
impl Hub {
    pub fn new(uid: u32, mode: u8, kids: Vec<crate::wtree::W>) -> Hub { Hub { uid, id: format!("w{uid}"), mode, inner: textual::containers::container::Container::new(kids) } }
}
/// what hub `uid` makes of a message: (replacement, stop)
pub fn hub_effect(uid: u32, mode: u8, m: &crate::wtree::Msg) -> (Option<crate::wtree::Msg>, bool) {
    let t = || crate::wtree::Msg::Probe(uid, format!("<{m:?}>"));
    match mode { 1 => (Some(t()), false), 2 => (None, true), 3 => (Some(t()), true), _ => (None, false) }
}
impl Widget<crate::wtree::Msg> for Hub {
    fn render(&self, canvas: &mut Canvas, region: Region) { self.inner.render(canvas, region) }
    fn desired_size(&self) -> Size { self.inner.desired_size() }
    fn get_meta(&self) -> WidgetMeta { let mut m = self.inner.get_meta(); m.type_name = "Hub"; m.type_names.insert(0, "Hub"); m.id = Some(self.id.clone()); m }
    fn get_state(&self) -> WidgetStates { self.inner.get_state() }
    fn set_style(&mut self, s: ComputedStyle) { self.inner.set_style(s) }
    fn get_style(&self) -> ComputedStyle { self.inner.get_style() }
    fn is_dirty(&self) -> bool { self.inner.is_dirty() }
    fn mark_dirty(&mut self) { self.inner.mark_dirty() }
    fn mark_clean(&mut self) { self.inner.mark_clean() }
    fn on_event(&mut self, key: KeyCode) -> Option<crate::wtree::Msg> { self.inner.on_event(key) }
    fn on_mouse(&mut self, e: MouseEvent, region: Region) -> Option<crate::wtree::Msg> { self.inner.on_mouse(e, region) }
    fn on_mouse_with_sender(&mut self, e: MouseEvent, region: Region) -> Option<(crate::wtree::Msg, textual::widget::SenderInfo)> { self.inner.on_mouse_with_sender(e, region) }
    fn clear_hover(&mut self) { self.inner.clear_hover() }
    fn count_focusable(&self) -> usize { self.inner.count_focusable() }
    fn clear_focus(&mut self) { self.inner.clear_focus() }
    fn focus_nth(&mut self, n: usize) -> bool { self.inner.focus_nth(n) }
    fn child_count(&self) -> usize { self.inner.child_count() }
    fn get_child_mut(&mut self, i: usize) -> Option<&mut (dyn Widget<crate::wtree::Msg> + '_)> { self.inner.get_child_mut(i) }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<crate::wtree::Msg>)) { self.inner.for_each_child(f) }
    fn on_resize(&mut self, s: Size) { self.inner.on_resize(s) }
    fn id(&self) -> Option<&str> { Some(&self.id) }
    fn type_name(&self) -> &'static str { "Hub" }
    fn add_class(&mut self, c: &str) { self.inner.add_class(c) }
    fn remove_class(&mut self, c: &str) { self.inner.remove_class(c) }
    fn has_class(&self, c: &str) -> bool { self.inner.has_class(c) }
    fn set_classes(&mut self, c: &str) { self.inner.set_classes(c) }
    fn classes(&self) -> Vec<String> { self.inner.classes() }
    fn handle_message(&mut self, e: &mut textual::MessageEnvelope<crate::wtree::Msg>) -> Option<crate::wtree::Msg> {
        log(Ev::Bubble(self.uid, e.message.clone()));
        let (m, stop) = hub_effect(self.uid, self.mode, &e.message);
        if stop { e.stop(); }
        m
    }
}
