//! P21: the focus ring, key dispatch and bubbling. P22: the query API.
use super::p19_mouse::{ids, theme};
use crate::core::*;
use crate::probe::{self, Ev};
use crate::wtree::*;
use crate::{ensure, ensure_eq};
use std::collections::VecDeque;
use tcss::WidgetStates;
use tcss::parser::parse_stylesheet;
use textual::message::MessageEnvelope;
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::tree::WidgetTree;
use textual::widget::Widget;
use textual::widget::app_widget::AppWidget;
use textual::widget::screen::Screen;
use textual::{KeyCode, Size};

pub fn prop() -> Prop {
    Prop { id: "P21", quick: 40_000, thorough: 2_000_000, run: run21, workers: 8,
        rule: "each case is one tree (1-40 nodes) of the library's containers, focusable controls, plain widgets, recording leaves and recording (transforming, stopping) containers, and a history of 4-30 steps: move the focus forward, backward, to an index, to an id; press keys and let the message bubble; hide, show, enable, disable widgets anywhere in the tree; after each step the focused widget, the widget that got the key and the containers that saw the message are compared with a model of the tree; distinct = distinct (tree, history)",
        assumptions: &["focus is moved through WidgetTree", "after the focused widget is hidden or disabled, the next move may land on any widget of the ring"] }
}
pub fn prop22() -> Prop {
    Prop { id: "P22", quick: 200_000, thorough: 8_000_000, run: run22, workers: 8,
        rule: "each case is one tree (1-60 nodes) of every kind of widget, with repeated types and ids, and 3-20 queries (one, first, last, all, count, filtered, typed, by id, by type) and bulk changes (classes, enabled state) whose results and effects on every widget of the tree are compared with a depth-first model; distinct = distinct (tree, queries)",
        assumptions: &["selectors are those the query API documents: Type, #id, Type#id"] }
}

#[derive(Clone, Debug)]
struct V { uid: String, ty: String, path: Vec<usize>, shown: bool, focusable: bool, focused: bool }
/// every widget reachable by index, with whether it and all its ancestors take part in layout
fn view(w: &mut dyn Widget<Msg>, path: &mut Vec<usize>, shown: bool, out: &mut Vec<V>) {
    out.push(V { uid: w.id().unwrap_or("").to_string(), ty: w.type_name().to_string(), path: path.clone(), shown, focusable: w.is_focusable(), focused: w.is_focused() || w.get_state().contains(WidgetStates::FOCUS) });
    for i in 0..w.child_count() {
        path.push(i);
        if let Some(c) = w.get_child_mut(i) { let s = shown && c.participates_in_layout(); view(c, path, s, out); }
        path.pop();
    }
}
fn views(t: &mut WidgetTree<Msg>) -> Vec<V> { let mut v = vec![]; view(t.root_mut(), &mut vec![], true, &mut v); v }

fn run21(cx: &mut Cx) -> R {
    let o = Opts { leaves: &[K::Probe, K::Probe, K::Button, K::Switch, K::Input, K::OptionList, K::Static, K::Label, K::Header, K::Placeholder, K::Loading], boxes: &[K::Hub, K::Hub, K::Container, K::Vertical, K::Horizontal, K::Grid, K::ItemGrid, K::Scrollable, K::VScroll, K::HScroll, K::Center, K::Middle], depth: 1 + cx.r.below(4), fan: 1 + cx.r.below(5), wide: false };
    let mut next = 0;
    let mut n = gen_tree(&mut cx.r, &o, &mut next, o.depth);
    if next > 60 { return Ok(()); }
    let dis: Vec<bool> = (0..next).map(|_| cx.r.chance(1, 8)).collect();
    ids(&mut n);
    fn disable(n: &mut N, d: &[bool]) { n.disabled = d[n.uid as usize]; for k in &mut n.kids { disable(k, d) } }
    disable(&mut n, &dis);
    let mut modes = vec![0u8; next as usize];
    fn collect(n: &N, m: &mut Vec<u8>) { if n.k == K::Hub { m[n.uid as usize] = (n.text.len() % 5) as u8; } for k in &n.kids { collect(k, m) } }
    collect(&n, &mut modes);
    let sheet = parse_stylesheet(".gone { display: none; }").map_err(|e| format!("{e:?}"))?;
    let theme = theme();
    let mut shape = String::new();
    show(&n, 0, &mut shape);
    cx.t(shape.clone());
    let inner = build(&n);
    let kind = cx.r.below(3);
    let root: W = match kind { 0 => Box::new(AppWidget::new_single(Box::new(Screen::new(vec![inner])))), 1 => Box::new(Screen::new(vec![inner])), _ => Box::new(textual::containers::container::Container::new(vec![inner])) };
    let mut t = WidgetTree::new(root);
    t.root_mut().on_resize(Size::new(80, 24));
    resolve_styles(t.root_mut(), &sheet, &theme, &mut VecDeque::new());
    let restyle = |t: &mut WidgetTree<Msg>| resolve_dirty_styles(t.root_mut(), &sheet, &theme, &mut VecDeque::new(), false, &InheritedContext::default());
    let mut h = hash(&(&shape, kind));
    // as the application does on start
    let start = cx.r.below(4);
    t.root_mut().clear_focus();
    t.root_mut().focus_nth(start);
    t.update_focus(start);
    // path of the widget the model says is focused
    let v = views(&mut t);
    let mut model: Option<Vec<usize>> = v.iter().filter(|x| x.shown && x.focusable).nth(start).map(|x| x.path.clone());
    ensure_eq!(v.iter().filter(|x| x.focused).map(|x| x.path.clone()).collect::<Vec<_>>(), model.iter().cloned().collect::<Vec<_>>(), "focused widgets after focusing number {start}\n{shape}");
    for _ in 0..4 + cx.r.below(26) {
        let v = views(&mut t);
        let ring: Vec<&V> = v.iter().filter(|x| x.shown && x.focusable).collect();
        let pos = model.as_ref().and_then(|m| ring.iter().position(|x| x.path == *m));
        ensure_eq!(t.focusable_count(), ring.len(), "number of focusable widgets\n{}", cx.trace.join("\n"));
        let op = cx.r.below(13);
        // Some(expected): the focus must be exactly there; None: unchanged or (when any) anywhere in the ring
        let mut want: Option<Option<Vec<usize>>> = None;
        let mut any = false;
        match op {
            0..=4 => {
                let fwd = op < 3;
                let got = if fwd { t.focus_next() } else { t.focus_previous() };
                h = hash(&(h, op < 3));
                cx.t(format!("{} -> {got:?} (was {model:?})", if fwd { "next" } else { "previous" }));
                if ring.is_empty() { ensure_eq!(got, None, "moving the focus with nothing to focus\n{}", cx.trace.join("\n")); }
                else if let Some(p) = pos {
                    let k = ring.len();
                    let e = if fwd { (p + 1) % k } else { (p + k - 1) % k };
                    ensure_eq!(got, Some(e), "focus index after a move from {p} of {k}\n{}", cx.trace.join("\n"));
                    want = Some(Some(ring[e].path.clone()));
                    cx.count(if (fwd && e == 0) || (!fwd && p == 0) { "moves around the end" } else { "moves" });
                } else {
                    ensure!(got.is_some(), "the focus did not move although {} widgets can take it\n{}", ring.len(), cx.trace.join("\n"));
                    any = true;
                    cx.count("moves after the focused widget left the ring");
                }
            }
            5 => {
                let i = cx.r.below(ring.len() + 2);
                let got = t.set_focus_index(i);
                h = hash(&(h, i));
                cx.t(format!("index {i} -> {got}"));
                ensure_eq!(got, i < ring.len(), "set_focus_index({i}) of {}\n{}", ring.len(), cx.trace.join("\n"));
                if i < ring.len() { want = Some(Some(ring[i].path.clone())); } else if ring.is_empty() { want = Some(None); }
                cx.count("moves to an index");
            }
            6 => {
                let id = format!("w{}", cx.r.below(next as usize));
                let got = t.focus_by_id(&id);
                h = hash(&(h, &id));
                cx.t(format!("id {id} -> {got}"));
                let e = ring.iter().find(|x| x.uid == id);
                ensure_eq!(got, e.is_some(), "focus_by_id({id})\n{}", cx.trace.join("\n"));
                if let Some(e) = e { want = Some(Some(e.path.clone())); }
                cx.count("moves to an id");
            }
            7 | 8 => {
                let i = cx.r.below(v.len());
                let what = cx.r.below(4);
                h = hash(&(h, i, what));
                cx.t(format!("change {what} of widget {:?} {}", v[i].path, v[i].uid));
                let mut w: &mut dyn Widget<Msg> = t.root_mut();
                for &k in &v[i].path { w = w.get_child_mut(k).unwrap(); }
                if !v[i].path.is_empty() { match what { 0 | 1 => w.toggle_class("gone"), 2 => { let d = w.is_disabled(); w.set_disabled(!d) } _ => { let d = w.is_visible(); w.set_visible(!d) } } }
                restyle(&mut t);
                cx.count("changes of display or state");
            }
            _ => {
                let key = *cx.r.pick(&[KeyCode::Enter, KeyCode::Char(' '), KeyCode::Char('x'), KeyCode::Down, KeyCode::Esc]);
                h = hash(&(h, format!("{key:?}")));
                let Some(p) = pos else { continue };
                let f = ring[p].clone();
                probe::take();
                let m = t.dispatch_key(key);
                let log = probe::take();
                let keys: Vec<u32> = log.iter().filter_map(|e| if let Ev::Key(u, _) = e { Some(*u) } else { None }).collect();
                let uid: u32 = f.uid[1..].parse().unwrap();
                cx.t(format!("key {key:?} to {} -> {m:?}", f.uid));
                ensure_eq!(keys, if f.ty == "Probe" { vec![uid] } else { vec![] }, "widgets that got the key while {} is focused\n{}", f.uid, cx.trace.join("\n"));
                if f.ty == "Probe" { ensure_eq!(m, Some(Msg::Probe(uid, format!("{key:?}"))), "message of the focused widget\n{}", cx.trace.join("\n")); }
                if let Some(m) = m {
                    let from = match &m { Msg::Sw(u, _) | Msg::Act(u) | Msg::Text(u, _) | Msg::Probe(u, _) => *u };
                    ensure_eq!(from, uid, "the message came from another widget\n{}", cx.trace.join("\n"));
                    let s = t.focused_sender_info();
                    ensure_eq!((s.id.clone(), s.type_name.to_string()), (Some(f.uid.clone()), f.ty.clone()), "sender");
                    // model: nearest ancestor first, each once, until one stops it
                    let (mut em, mut es, mut er) = (m.clone(), true, vec![]);
                    for d in (0..f.path.len()).rev() {
                        let a = v.iter().find(|x| x.path == f.path[..d]).unwrap();
                        if a.ty == "Hub" && es {
                            let u: u32 = a.uid[1..].parse().unwrap();
                            er.push(Ev::Bubble(u, em.clone()));
                            let (r, stop) = probe::hub_effect(u, modes[u as usize], &em);
                            if let Some(r) = r { em = r; }
                            if stop { es = false; }
                        }
                    }
                    probe::take();
                    let out = t.bubble_message(MessageEnvelope::new(m, s.id.as_deref(), s.type_name));
                    let got: Vec<Ev> = probe::take().into_iter().filter(|e| matches!(e, Ev::Bubble(..))).collect();
                    cx.add("containers a message passed", got.len() as u64);
                    if !es { cx.count("messages stopped on the way"); }
                    ensure_eq!(got, er, "containers that saw the message, in order\n{}", cx.trace.join("\n"));
                    ensure_eq!((&out.message, out.is_bubbling(), &out.sender_id, &out.sender_type), (&em, es, &Some(f.uid.clone()), &f.ty), "message that arrives at the application\n{}", cx.trace.join("\n"));
                    cx.count("messages bubbled");
                }
                cx.count("keys dispatched");
            }
        }
        let v = views(&mut t);
        let now: Vec<Vec<usize>> = v.iter().filter(|x| x.focused).map(|x| x.path.clone()).collect();
        if let Some(w) = want { model = w; ensure_eq!(now, model.iter().cloned().collect::<Vec<_>>(), "widgets with the focus\n{}", cx.trace.join("\n")); ensure_eq!(t.focus_path().indices().to_vec(), model.clone().unwrap_or_default(), "focus path\n{}", cx.trace.join("\n")); }
        else if any {
            ensure_eq!(now.len(), 1, "number of widgets with the focus ({now:?})\n{}", cx.trace.join("\n"));
            ensure!(ring_has(&v, &now[0]), "the focus went to {now:?}, which cannot hold it\n{}", cx.trace.join("\n"));
            model = Some(now[0].clone());
        } else if op != 7 && op != 8 {
            ensure!(now.len() <= 1, "more than one widget has the focus: {now:?}\n{}", cx.trace.join("\n"));
        }
        if v.iter().any(|x| !x.shown && x.focusable) { cx.count("steps with a hidden focusable widget"); }
    }
    cx.distinct(&h);
    cx.sample(|| shape);
    Ok(())
}
fn ring_has(v: &[V], p: &[usize]) -> bool { v.iter().any(|x| x.shown && x.focusable && x.path == p) }

#[derive(Clone, Debug, PartialEq)]
struct Q { n: usize, id: Option<String>, ty: String, classes: Vec<String>, disabled: bool }
fn snap(w: &mut dyn Widget<Msg>, out: &mut Vec<Q>) {
    out.push(Q { n: out.len(), id: w.id().map(String::from), ty: w.type_name().to_string(), classes: { let mut c = w.classes(); c.sort(); c }, disabled: w.is_disabled() });
    for i in 0..w.child_count() { if let Some(c) = w.get_child_mut(i) { snap(c, out); } }
}
const CLASSY: &[&str] = &["Static", "Label", "Button", "Input", "OptionList", "Placeholder", "Ruler", "LoadingIndicator", "Header", "Container", "Vertical", "Horizontal", "ScrollableContainer", "VerticalScroll", "HorizontalScroll", "Probe", "Hub"];

fn run22(cx: &mut Cx) -> R {
    let leaves: Vec<K> = LEAVES.iter().copied().chain([K::Probe]).collect();
    let boxes: Vec<K> = BOXES.iter().copied().chain([K::Hub]).collect();
    let o = Opts { leaves: &leaves, boxes: &boxes, depth: cx.r.below(5), fan: 1 + cx.r.below(6), wide: false };
    let mut next = 0;
    let mut n = gen_tree(&mut cx.r, &o, &mut next, o.depth);
    if next > 80 { return Ok(()); }
    // repeated ids
    fn reid(n: &mut N, r: &mut Rng) { if n.id.is_some() { n.id = Some(format!("w{}", r.below(6))); } for k in &mut n.kids { reid(k, r) } }
    reid(&mut n, &mut cx.r);
    let mut shape = String::new();
    show(&n, 0, &mut shape);
    cx.t(shape.clone());
    let inner = build(&n);
    let root: W = if cx.r.bool() { Box::new(AppWidget::new_single(Box::new(Screen::new(vec![inner])))) } else { inner };
    let mut t = WidgetTree::new(root);
    let mut h = hash(&shape);
    let all = { let mut q = vec![]; snap(t.root_mut(), &mut q); q };
    let types: Vec<String> = { let mut x: Vec<String> = all.iter().map(|q| q.ty.clone()).collect(); x.sort(); x.dedup(); x };
    for _ in 0..3 + cx.r.below(18) {
        let mut before = vec![];
        snap(t.root_mut(), &mut before);
        let ty = if cx.r.chance(1, 6) { cx.r.pick(&["Nope", "static", "Widget", "Swit"]).to_string() } else { cx.r.pick(&types).clone() };
        let id = if cx.r.chance(1, 8) { "zz".to_string() } else { format!("w{}", cx.r.below(7)) };
        let (sel, sty, sid) = match cx.r.below(5) { 0 | 1 => (ty.clone(), Some(ty.clone()), None), 2 | 3 => (format!("#{id}"), None, Some(id.clone())), _ => (format!("{ty}#{id}"), Some(ty.clone()), Some(id.clone())) };
        let padded = if cx.r.chance(1, 8) { format!("  {sel} ") } else { sel.clone() };
        let m = |q: &Q| sty.as_ref().is_none_or(|t| *t == q.ty) && sid.as_ref().is_none_or(|i| q.id.as_ref() == Some(i));
        let hits: Vec<usize> = before.iter().filter(|q| m(q)).map(|q| q.n).collect();
        let op = cx.r.below(15);
        h = hash(&(h, &sel, op));
        cx.t(format!("op {op} on {sel:?} (matches {hits:?})"));
        cx.add("widgets matched", hits.len() as u64);
        // widgets are recognised by marking them with a class or, where they have none, by position in a fresh walk
        let sig = |w: &mut dyn Widget<Msg>| -> (Option<String>, String, Vec<String>, bool) { (w.id().map(String::from), w.type_name().to_string(), { let mut c = w.classes(); c.sort(); c }, w.is_disabled()) };
        let sigq = |i: usize| (before[i].id.clone(), before[i].ty.clone(), before[i].classes.clone(), before[i].disabled);
        let ctx = cx.trace.join("\n");
        let mut expect = before.clone();
        match op {
            0 => ensure_eq!(t.query_one(&padded, |w| sig(w)), hits.first().map(|&i| sigq(i)), "query_one\n{ctx}"),
            1 => ensure_eq!(t.query(&padded).first(|w| sig(w)), hits.first().map(|&i| sigq(i)), "first\n{ctx}"),
            2 => ensure_eq!(t.query(&padded).last(|w| sig(w)), hits.last().map(|&i| sigq(i)), "last\n{ctx}"),
            3 => ensure_eq!(t.query(&padded).count(), hits.len(), "count\n{ctx}"),
            4 => { let mut got = vec![]; t.query(&padded).for_each(|w| got.push(sig(w))); ensure_eq!(got, hits.iter().map(|&i| sigq(i)).collect::<Vec<_>>(), "for_each\n{ctx}"); }
            5 | 6 => {
                let cl = *cx.r.pick(CLASSES);
                let fh: Vec<usize> = hits.iter().copied().filter(|&i| before[i].classes.iter().any(|c| c == cl)).collect();
                if !fh.is_empty() && fh.len() < hits.len() { cx.count("filters that split a match"); }
                match cx.r.below(4) {
                    0 => ensure_eq!(t.query(&padded).filter(|w| w.has_class(cl)).count(), fh.len(), "filtered count\n{ctx}"),
                    1 => ensure_eq!(t.query(&padded).filter(|w| w.has_class(cl)).first(|w| sig(w)), fh.first().map(|&i| sigq(i)), "filtered first\n{ctx}"),
                    2 => ensure_eq!(t.query(&padded).filter(|w| w.has_class(cl)).last(|w| sig(w)), fh.last().map(|&i| sigq(i)), "filtered last\n{ctx}"),
                    _ => { t.query(&padded).filter(|w| w.has_class(cl)).remove_class(cl); for &i in &fh { expect[i].classes.retain(|c| c != cl); } }
                }
            }
            7 => ensure_eq!(t.with_widget_by_id(&id, |w| sig(w)), before.iter().find(|q| q.id.as_ref() == Some(&id)).map(|q| sigq(q.n)), "with_widget_by_id\n{ctx}"),
            8 => ensure_eq!(t.with_widget_by_type(&ty, |w| sig(w)), before.iter().find(|q| q.ty == ty).map(|q| sigq(q.n)), "with_widget_by_type\n{ctx}"),
            9 => {
                let got = t.query_one_as::<textual::widget::static_widget::Static<Msg>, _, _>(&padded, |w| sig(w));
                ensure_eq!(got, hits.iter().find(|&&i| before[i].ty == "Static").map(|&i| sigq(i)), "query_one_as::<Static>\n{ctx}");
                let got = t.query_one_as::<textual::widget::button::Button<Msg>, _, _>(&padded, |w| sig(w));
                ensure_eq!(got, hits.iter().find(|&&i| before[i].ty == "Button").map(|&i| sigq(i)), "query_one_as::<Button>\n{ctx}");
            }
            10..=13 => {
                let cl = *cx.r.pick(&["a", "b", "new", "-on"]);
                let add = cx.r.bool();
                match op { 10 => t.query(&padded).add_class(cl), 11 => t.query(&padded).remove_class(cl), 12 => t.query(&padded).toggle_class(cl), _ => t.query(&padded).set_class(add, cl) }
                for &i in &hits {
                    if !CLASSY.contains(&before[i].ty.as_str()) { continue; }
                    let has = before[i].classes.iter().any(|c| c == cl);
                    let want = match op { 10 => true, 11 => false, 12 => !has, _ => add };
                    if want != has { cx.count("classes changed"); }
                    expect[i].classes.retain(|c| c != cl);
                    if want { expect[i].classes.push(cl.to_string()); expect[i].classes.sort(); }
                }
            }
            _ => {
                let d = cx.r.bool();
                t.query(&padded).set_disabled(d);
                for &i in &hits { if ["Static", "Label", "Button", "Input", "Switch", "Probe"].contains(&before[i].ty.as_str()) { expect[i].disabled = d; } }
                let mut after = vec![];
                snap(t.root_mut(), &mut after);
                // widgets without a state of their own ignore it
                for &i in &hits { if !["Static", "Label", "Button", "Input", "Switch", "Probe"].contains(&before[i].ty.as_str()) { expect[i].disabled = after[i].disabled; } }
            }
        }
        let mut after = vec![];
        snap(t.root_mut(), &mut after);
        if let Some((a, e)) = after.iter().zip(&expect).find(|(a, e)| a != e) { return Err(format!("after the operation a widget is {a:?}, expected {e:?}\n{ctx}")); }
        ensure_eq!(after.len(), expect.len(), "number of widgets");
        // a class change must be seen by the next style pass
        for (b, a) in before.iter().zip(&after) { if b != a { cx.count("widgets changed by a bulk operation"); } }
        cx.count("queries");
    }
    cx.distinct(&h);
    cx.sample(|| shape);
    Ok(())
}
