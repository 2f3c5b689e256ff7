//! Random widget trees built from the library's own widgets, described by a plain value so that the
//! same tree can be built any number of times.
use crate::core::*;
use crate::gen_text as gt;
use textual::containers::container::Container;
use textual::containers::grid::Grid;
use textual::containers::horizontal::Horizontal;
use textual::containers::horizontal_scroll::HorizontalScroll;
use textual::containers::item_grid::ItemGrid;
use textual::containers::scrollable::ScrollableContainer;
use textual::containers::vertical::Vertical;
use textual::containers::vertical_scroll::VerticalScroll;
use textual::containers::{Center, Middle};
use textual::widget::Widget;
use textual::widget::button::Button;
use textual::widget::header::Header;
use textual::widget::input::Input;
use textual::widget::label::Label;
use textual::widget::loading_indicator::LoadingIndicator;
use textual::widget::option_list::OptionList;
use textual::widget::placeholder::Placeholder;
use textual::widget::ruler::Ruler;
use textual::widget::static_widget::Static;
use textual::widget::switch::Switch;

#[derive(Clone, Debug, PartialEq)]
pub enum Msg { Sw(u32, bool), Act(u32), Text(u32, String), Probe(u32, String) }
pub type W = Box<dyn Widget<Msg>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K { Static, Label, Button, Switch, Input, OptionList, Placeholder, Ruler, Loading, Header, Container, Vertical, Horizontal, Grid, ItemGrid, Scrollable, VScroll, HScroll, Center, Middle, Probe, Hub }
impl K {
    pub fn is_box(self) -> bool { use K::*; matches!(self, Container | Vertical | Horizontal | Grid | ItemGrid | Scrollable | VScroll | HScroll | Center | Middle | Hub) }
    pub fn single(self) -> bool { matches!(self, K::Center | K::Middle) }
}
pub const LEAVES: &[K] = &[K::Static, K::Static, K::Label, K::Button, K::Switch, K::Input, K::OptionList, K::Placeholder, K::Ruler, K::Loading, K::Header];
pub const BOXES: &[K] = &[K::Container, K::Container, K::Vertical, K::Horizontal, K::Grid, K::ItemGrid, K::Scrollable, K::VScroll, K::HScroll, K::Center, K::Middle];
pub const CLASSES: &[&str] = &["a", "b", "c", "-on", "x_1"];
pub const PSEUDO: &[&str] = &["focus", "hover", "active", "disabled"];

#[derive(Clone, Debug)]
pub struct N { pub k: K, pub uid: u32, pub id: Option<String>, pub classes: Vec<&'static str>, pub text: String, pub disabled: bool, pub kids: Vec<N> }

pub struct Opts<'a> { pub leaves: &'a [K], pub boxes: &'a [K], pub depth: usize, pub fan: usize, pub wide: bool }

pub fn gen_tree(r: &mut Rng, o: &Opts, next: &mut u32, depth: usize) -> N {
    let uid = *next;
    *next += 1;
    let k = if depth > 0 && (depth == o.depth || r.chance(2, 5)) { *r.pick(o.boxes) } else { *r.pick(o.leaves) };
    let id = if r.chance(1, 4) { Some(format!("w{}", uid)) } else { None };
    let classes = CLASSES.iter().filter(|_| r.chance(1, 4)).copied().collect();
    let n = match r.below(5) { 0 => 0, 1 => 1, _ => 1 + r.below(4) };
    let mut text = gt::words(r, n, 8, o.wide);
    if r.chance(1, 6) { text.push('\n'); text.push_str(&gt::words(r, 2, 6, o.wide)); }
    let kids = if k.single() { vec![gen_tree(r, o, next, depth - 1)] } else if k.is_box() { (0..r.below(o.fan + 1)).map(|_| gen_tree(r, o, next, depth - 1)).collect() } else { vec![] };
    N { k, uid, id, classes, text, disabled: r.chance(1, 10), kids }
}

pub fn build(n: &N) -> W {
    let kids: Vec<W> = n.kids.iter().map(build).collect();
    let cl = n.classes.join(" ");
    let id = n.id.clone();
    let u = n.uid;
    macro_rules! fin { ($w:expr) => {{ let w = $w; let w = match id { Some(i) => w.with_id(i), None => w }; Box::new(w) as W }}; }
    macro_rules! finc { ($w:expr) => {{ let w = $w.with_classes(cl); fin!(w) }}; }
    match n.k {
        K::Static => finc!(Static::<Msg>::new(n.text.clone()).with_markup(false).with_disabled(n.disabled)),
        K::Label => finc!(Label::<Msg>::new(n.text.clone()).with_markup(false).with_disabled(n.disabled)),
        K::Button => finc!(Button::<Msg>::new(n.text.clone()).with_message(Msg::Act(u)).with_disabled(n.disabled)),
        K::Switch => fin!(Switch::<Msg, _>::new(n.text.len() % 2 == 0, move |b| Msg::Sw(u, b)).with_disabled(n.disabled)),
        K::Input => finc!({ let mut i = Input::<Msg>::new().with_placeholder("ph").with_disabled(n.disabled); i.set_value(n.text.replace('\n', " ")); i }),
        K::OptionList => finc!(OptionList::<Msg>::new(n.text.split(' ').map(String::from).collect())),
        K::Placeholder => finc!(Placeholder::new().with_label(n.text.clone())),
        K::Ruler => finc!(if u % 2 == 0 { Ruler::<Msg>::horizontal() } else { Ruler::<Msg>::vertical() }),
        K::Loading => finc!(LoadingIndicator::<Msg>::new()),
        K::Header => finc!(Header::<Msg>::new(n.text.clone())),
        K::Container => finc!(Container::<Msg>::new(kids)),
        K::Vertical => finc!(Vertical::<Msg>::new(kids)),
        K::Horizontal => finc!(Horizontal::<Msg>::new(kids)),
        K::Grid => fin!(Grid::<Msg>::new(kids)),
        K::ItemGrid => fin!(ItemGrid::<Msg>::new(kids)),
        K::Scrollable => finc!(ScrollableContainer::<Msg>::new(kids)),
        K::VScroll => finc!(VerticalScroll::<Msg>::new(kids)),
        K::HScroll => finc!(HorizontalScroll::<Msg>::new(kids)),
        K::Center => Box::new(Center::<Msg>::new(kids)),
        K::Middle => Box::new(Middle::<Msg>::new(kids)),
        K::Hub => Box::new(crate::probe::Hub::new(u, (n.text.len() % 5) as u8, kids)),
        K::Probe => { let mut p = crate::probe::Probe::new(u, 1 + (n.text.len() % 9) as u16, 1 + (n.text.len() % 4) as u16); p.classes = n.classes.iter().map(|c| c.to_string()).collect(); p.disabled = n.disabled; p.focusable = u % 2 == 0; Box::new(p) }
    }
}

/// visit every widget (pre-order, including internal children), with its depth
pub fn walk(w: &mut dyn Widget<Msg>, depth: usize, f: &mut dyn FnMut(&mut dyn Widget<Msg>, usize)) {
    f(w, depth);
    w.for_each_child(&mut |c| walk(c, depth + 1, f));
}
pub fn count(w: &mut dyn Widget<Msg>) -> usize { let mut n = 0; walk(w, 0, &mut |_, _| n += 1); n }
/// run f on the i-th widget in pre-order
pub fn nth(w: &mut dyn Widget<Msg>, i: usize, f: &mut dyn FnMut(&mut dyn Widget<Msg>)) {
    let mut k = 0;
    walk(w, 0, &mut |x, _| { if k == i { f(x) } k += 1; });
}
pub fn show(n: &N, depth: usize, out: &mut String) {
    out.push_str(&format!("{}{:?}#{}{} {:?}\n", "  ".repeat(depth), n.k, n.id.clone().unwrap_or_default(), n.classes.iter().map(|c| format!(".{c}")).collect::<String>(), n.text));
    for k in &n.kids { show(k, depth + 1, out); }
}
