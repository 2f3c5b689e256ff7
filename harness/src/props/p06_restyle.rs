//! P06: whatever happens to the tree, the styles after an incremental restyle are those of a full restyle,
//! and inherited values come from the parent.
use crate::core::*;
use crate::css_gen::*;
use crate::wtree::*;
use std::collections::VecDeque;
use tcss::StyleOverride;
use tcss::parser::cascade::{WidgetMeta, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::parser::stylesheet::StyleSheet;
use tcss::types::*;
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::Widget;

pub fn prop() -> Prop {
    Prop { id: "P06", quick: 200_000, thorough: 10_000_000, run, workers: 8,
        rule: "each case is one widget tree (the library's own widgets, 1-40 nodes), one stylesheet of 3-14 rules with descendant/child/state selectors and a history of 1-12 state changes (classes, disabled, focus, hover, active, visible, inline style) with an incremental restyle after random prefixes; after every restyle each visible widget's style is compared with the cascade for its current state plus the inheritance model; distinct = distinct (tree shape, change history) pairs in which at least one style changed",
        assumptions: &["the cascade itself is decided by P04; here it supplies the non-inherited part", "declarations that change the layout keyword are left out because a container advertises its layout as a type name"] }
}

#[derive(Clone, PartialEq, Debug)]
struct Inh { color: Option<RgbaColor>, auto: bool, bg: Option<RgbaColor>, vis: Visibility }

fn eff_bg(s: &ComputedStyle, parent: &Option<RgbaColor>) -> Option<RgbaColor> {
    let b = match &s.background { None => return parent.clone(), Some(b) => b };
    let base = match parent { Some(p) if b.a < 1.0 => b.blend_over(p), _ => b.clone() };
    Some(match &s.background_tint { Some(t) => base.tint(t), None => base })
}

fn expected(meta: &WidgetMeta, anc: &[WidgetMeta], inline: Option<&StyleOverride>, sheet: &StyleSheet, theme: &Theme, inh: &Inh) -> ComputedStyle {
    let mut s = compute_style(meta, anc, sheet, theme);
    if s.color.is_none() && inh.color.is_some() { s.color = inh.color.clone(); s.auto_color = inh.auto; }
    s.inherited_background = inh.bg.clone();
    if !s.visibility_set { s.visibility = inh.vis; }
    if let Some(o) = inline {
        if let Some(c) = &o.color { s.color = Some(c.clone()); s.auto_color = c.auto; }
        if let Some(c) = &o.background { s.background = Some(c.clone()); }
        if let Some(c) = &o.tint { s.tint = Some(c.clone()); }
        if let Some(c) = &o.background_tint { s.background_tint = Some(c.clone()); }
    }
    s
}

fn check(w: &mut dyn Widget<Msg>, anc: &mut VecDeque<WidgetMeta>, sheet: &StyleSheet, theme: &Theme, inh: &Inh, n: &mut u64, fp: &mut u64) -> R {
    if !w.is_visible() { return Ok(()); }
    let meta = w.get_meta();
    let want = expected(&meta, anc.make_contiguous(), w.inline_style(), sheet, theme, inh);
    let got = w.get_style();
    *n += 1;
    *fp = fp.wrapping_mul(31).wrapping_add(hash(&format!("{:?}{:?}{:?}", got.color, got.background, got.opacity)));
    if got != want {
        return Err(format!("style of {} id={:?} classes={:?} states={:?} at depth {} is not that of a full restyle: {}", meta.type_name, meta.id, meta.classes, meta.states, anc.len(), diff(&got, &want)));
    }
    let ci = Inh { color: want.color.clone(), auto: want.auto_color, bg: eff_bg(&want, &inh.bg), vis: want.visibility };
    anc.push_front(meta);
    let mut res = Ok(());
    w.for_each_child(&mut |c| { if res.is_ok() { res = check(c, anc, sheet, theme, &ci, n, fp); } });
    anc.pop_front();
    res
}

pub fn diff(a: &ComputedStyle, b: &ComputedStyle) -> String {
    let (x, y) = (format!("{a:#?}"), format!("{b:#?}"));
    let mut out = String::new();
    for (p, q) in x.lines().zip(y.lines()) { if p != q { out.push_str(&format!("got `{}` expected `{}`; ", p.trim(), q.trim())); if out.len() > 400 { break; } } }
    out
}

pub fn sheet_src(r: &mut Rng, n: usize, pick: &mut dyn FnMut(&mut Rng) -> Decl) -> String {
    const TY: &[&str] = &["Static", "Label", "Button", "Switch", "Input", "Container", "Grid", "VerticalScroll", "Header", "Widget", "Center", "HeaderTitle", "OptionList"];
    let mut src = String::new();
    for _ in 0..n {
        let mut sel = String::new();
        let k = *r.pick(&[1, 1, 1, 2, 2, 3]);
        for i in 0..k {
            if i > 0 { sel.push_str(r.pick::<&str>(&[" ", " ", " > "])); }
            match r.below(8) {
                0 => sel.push('*'),
                1 | 2 => sel.push_str(r.pick::<&str>(TY)),
                3 => { sel.push('#'); sel.push_str(&format!("w{}", r.below(12))); }
                _ => { sel.push('.'); sel.push_str(r.pick::<&str>(CLASSES)); }
            }
            if r.chance(1, 4) { sel.push('.'); sel.push_str(r.pick::<&str>(CLASSES)); }
            if r.chance(1, 4) { sel.push(':'); sel.push_str(r.pick::<&str>(PSEUDO)); }
        }
        src.push_str(&sel);
        src.push_str(" { ");
        for _ in 0..1 + r.below(3) { let d = pick(r); src.push_str(&write_decl(r, &d, false, false)); }
        src.push_str(" }\n");
    }
    src
}

fn pick_decl(r: &mut Rng) -> Decl {
    loop {
        let d = if r.chance(4, 5) { let k = *r.pick(&[0usize, 0, 2, 2, 5, 4, 46, 47]); decl_of(r, k) } else { decl(r) };
        if d.prop != "layout" { return d; }
    }
}

fn run(cx: &mut Cx) -> R {
    let theme = cx.r.pick(themes()).clone();
    let depth = 1 + cx.r.below(4);
    let mut next = 0;
    let tree = gen_tree(&mut cx.r, &Opts { leaves: LEAVES, boxes: BOXES, depth, fan: 4, wide: false }, &mut next, depth);
    if next > 60 { return Ok(()); }
    let nrules = 3 + cx.r.below(12);
    let mut src = sheet_src(&mut cx.r, nrules, &mut pick_decl);
    if cx.r.chance(1, 3) { src.push_str(&format!(".{}{} {{ visibility: {}; }}\n", cx.r.pick(CLASSES), if cx.r.bool() { ":hover" } else { "" }, cx.r.pick(&["hidden", "visible"]))); }
    let mut s = String::new();
    show(&tree, 0, &mut s);
    cx.t(format!("tree:\n{s}"));
    cx.t(format!("css:\n{src}"));
    let sheet = parse_stylesheet(&src).map_err(|e| format!("stylesheet rejected: {e:?}\n{src}"))?;
    let mut w = build(&tree);
    let total = count(w.as_mut());
    let inh = Inh { color: theme.get_color("foreground").or_else(|| theme.get_color("text")), auto: false, bg: None, vis: Visibility::Visible };
    let ictx = InheritedContext::from_theme(&theme);
    guard(|| resolve_styles(w.as_mut(), &sheet, &theme, &mut VecDeque::new()))?;
    let (mut n, mut fp0) = (0, 0);
    check(w.as_mut(), &mut VecDeque::new(), &sheet, &theme, &inh, &mut n, &mut fp0).map_err(|e| format!("after the first full restyle: {e}"))?;
    let mut hist = Vec::new();
    let mut changed = false;
    let steps = 1 + cx.r.below(12);
    for st in 0..steps {
        let i = cx.r.below(total);
        let op = cx.r.below(12);
        let cls = *cx.r.pick(CLASSES);
        let b = cx.r.bool();
        let col = Some(if cx.r.chance(1, 5) { RgbaColor::auto(0.5) } else { RgbaColor::rgba(cx.r.below(256) as u8, cx.r.below(256) as u8, 9, *cx.r.pick(&[1.0, 0.5])) });
        let which = cx.r.below(4);
        let mut ty = String::new();
        nth(w.as_mut(), i, &mut |x| {
            ty = x.get_meta().type_name.to_string();
            match op {
                0 | 1 => x.add_class(cls),
                2 => x.remove_class(cls),
                3 => x.toggle_class(cls),
                4 => x.set_class(b, cls),
                5 => x.set_classes(if b { "a c" } else { cls }),
                6 => x.set_disabled(b),
                7 => x.set_focus(b),
                8 => { x.set_hover(b); }
                9 => { x.set_active(b); }
                10 => x.set_visible(b),
                _ => if b { let mut o = StyleOverride::default(); match which { 0 => o.color = col.clone(), 1 => o.background = col.clone(), 2 => o.tint = col.clone(), _ => o.background_tint = col.clone() }; x.set_inline_style(o) } else { x.clear_inline_style() },
            }
        });
        cx.t(format!("step {st}: op {op} on widget {i} ({ty}) class {cls} {b}"));
        cx.count(match op { 0..=5 => "class changes", 6 => "disabled changes", 7 => "focus changes", 8 => "hover changes", 9 => "active changes", 10 => "visible changes", _ => "inline style changes" });
        hist.push((i, op, cls, b));
        if st + 1 == steps || cx.r.chance(1, 2) {
            guard(|| resolve_dirty_styles(w.as_mut(), &sheet, &theme, &mut VecDeque::new(), false, &ictx))?;
            let mut fp = 0;
            let before = n;
            check(w.as_mut(), &mut VecDeque::new(), &sheet, &theme, &inh, &mut n, &mut fp).map_err(|e| format!("after the incremental restyle following step {st} (op {op} on widget {i}, {ty}): {e}"))?;
            if fp != fp0 { changed = true; cx.count("restyles that changed a style"); }
            fp0 = fp;
            let _ = before;
            cx.count("incremental restyles");
        }
    }
    cx.add("widget styles compared", n);
    if changed { cx.distinct(&(s.clone(), src.clone(), hist)); }
    cx.sample(|| format!("{s}{src}"));
    cx.obs.evals += n;
    Ok(())
}
