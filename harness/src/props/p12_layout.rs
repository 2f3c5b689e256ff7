//! P12: vertical and horizontal flow; P13: grids; P14: docks, layers, alignment, offsets and absolute children.
use crate::core::*;
use crate::ensure;
use crate::ensure_eq;
use crate::layout_model::*;
use tcss::types::geometry::{Scalar, Unit};
use tcss::types::{AlignHorizontal, AlignVertical, ComputedStyle, Dock, Layout as LK, Position};
use textual::canvas::Region;
use textual::layouts::*;

pub fn prop() -> Prop {
    Prop { id: "P12", quick: 300_000, thorough: 12_000_000, run, workers: 8,
        rule: "each case arranges 0-9 children with random sizes (cells, auto, fr, %, w, h, vw, vh, unset, content that fills or wraps), margins, chrome, box sizing and min/max constraints vertically or horizontally in a region of 0-120 x 0-50 cells and compares every placement with an exact rational model; moving the region must move every placement with it; distinct = distinct (region, placements)",
        assumptions: &["relative sizes are only generated for border-box children", "percentages are those for which f64 and exact arithmetic round alike"] }
}
pub fn prop13() -> Prop {
    Prop { id: "P13", quick: 200_000, thorough: 8_000_000, run: run13, workers: 8,
        rule: "each case arranges 0-12 children with random spans, sizes and margins in a grid with random size, track specifications (cells, %, fr, auto), gutters, minimum column width and content-sized tracks and compares every placement and the reported cell occupancy with an exact model; also checks directly that no two children share a grid cell; distinct = distinct (region, placements)",
        assumptions: &["auto tracks are not mixed with fr tracks", "explicit child sizes are only generated without margins"] }
}
pub fn prop14() -> Prop {
    Prop { id: "P14", quick: 200_000, thorough: 8_000_000, run: run14, workers: 8,
        rule: "each case arranges 0-9 children, a third of them docked, absolutely positioned, offset or on named layers, in a container with random layout, alignment and layer declarations and compares the placements and their stacking order with an exact model; distinct = distinct (region, placements)",
        assumptions: &["undeclared layers lie below declared ones in order of first appearance"] }
}

fn region(a: Rect) -> Region { Region { x: a.0, y: a.1, width: a.2, height: a.3 } }
fn got(p: &[WidgetPlacement]) -> Vec<(usize, Rect)> { p.iter().map(|p| (p.child_index, (p.region.x, p.region.y, p.region.width, p.region.height))).collect() }
fn desc(p: &ComputedStyle, kids: &[Kid], a: Rect, v: Viewport) -> String {
    let f = |s: &Option<Scalar>| s.as_ref().map_or("-".into(), |s| format!("{}{:?}", s.value, s.unit));
    let mut o = format!("{:?} region {:?} viewport {:?} align {:?}/{:?} layers {:?} size {}x{} grid {:?}\n", p.layout, a, v, p.align_horizontal, p.align_vertical, p.layers, f(&p.width), f(&p.height), p.grid);
    for k in kids {
        let s = &k.st;
        o += &format!("  #{} w={} h={} min={}/{} max={}/{} margin={},{},{},{} chrome={}x{} {:?} desired={:?} area={} span={:?} dock={:?} pos={:?} off={}/{} layer={:?}\n", k.idx, f(&s.width), f(&s.height), f(&s.min_width), f(&s.min_height), f(&s.max_width), f(&s.max_height), s.margin.top.value, s.margin.right.value, s.margin.bottom.value, s.margin.left.value, chrome_w(s), chrome_h(s), s.box_sizing, k.n.size, k.n.area, s.grid_placement, s.dock, s.position, f(&s.offset_x), f(&s.offset_y), s.layer);
    }
    o
}
fn area(r: &mut Rng) -> (Rect, Viewport) {
    let a = (r.i32(-20, 40), r.i32(-10, 30), if r.chance(1, 10) { r.i32(0, 3) } else { r.i32(0, 120) }, if r.chance(1, 10) { r.i32(0, 3) } else { r.i32(0, 50) });
    (a, Viewport { width: r.i32(1, 150), height: r.i32(1, 60) })
}
fn kids_of<'a>(r: &mut Rng, ns: &'a [(Node, ComputedStyle)]) -> Vec<Kid<'a>> {
    let base = r.below(3);
    let step = 1 + r.below(2);
    ns.iter().enumerate().map(|(i, (n, s))| Kid { idx: base + i * step, st: s.clone(), n }).collect()
}
fn check(cx: &mut Cx, p: &ComputedStyle, kids: &[Kid], a: Rect, v: Viewport, real: Vec<(usize, Rect)>, want: Vec<(usize, Rect)>) -> R {
    cx.obs.evals += 1;
    cx.add("placements", real.len() as u64);
    for (i, q) in &real { ensure!(q.2 >= 0 && q.3 >= 0, "child #{i} has a negative size {q:?}\n{}", desc(p, kids, a, v)); }
    ensure!(real == want, "placements differ\n got      {real:?}\n expected {want:?}\n{}", desc(p, kids, a, v));
    cx.distinct(&(a, &real));
    cx.sample(|| format!("{}{:?}", desc(p, kids, a, v), real));
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    let r = &mut cx.r;
    let mut p = ComputedStyle::default();
    p.layout = if r.bool() { LK::Vertical } else { LK::Horizontal };
    let (a, v) = area(r);
    let ns: Vec<(Node, ComputedStyle)> = (0..r.below(10)).map(|_| { let mut n = node(r); let s = flow_style(r, &mut n, p.layout); (n, s) }).collect();
    let kids = kids_of(r, &ns);
    let (dx, dy) = (r.i32(-30, 30), r.i32(-30, 30));
    let go = |a: Rect| -> Vec<(usize, Rect)> {
        let ch: Vec<LayoutChild> = kids.iter().map(|k| k.child()).collect();
        got(&match p.layout { LK::Vertical => VerticalLayout.arrange(&p, &ch, region(a), v), _ => HorizontalLayout.arrange(&p, &ch, region(a), v) })
    };
    let real = guard(|| go(a)).map_err(|e| format!("{e}\n{}", desc(&p, &kids, a, v)))?;
    let want = match p.layout { LK::Vertical => vertical(&kids, a, v), _ => horizontal(&kids, a, v) };
    cx.count(if p.layout == LK::Vertical { "vertical" } else { "horizontal" });
    check(cx, &p, &kids, a, v, real.clone(), want)?;
    let moved = go((a.0 + dx, a.1 + dy, a.2, a.3));
    let back: Vec<(usize, Rect)> = moved.into_iter().map(|(i, q)| (i, (q.0 - dx, q.1 - dy, q.2, q.3))).collect();
    ensure_eq!(back, real, "moving the region by {dx},{dy} changes the arrangement\n{}", desc(&p, &kids, a, v));
    Ok(())
}

fn grid_parent(r: &mut Rng, p: &mut ComputedStyle) {
    let spec = |r: &mut Rng, fr: bool| match r.below(4) { 0 => sc(r.i32(0, 12) as f64, Unit::Cells), 1 => sc(*r.pick(PCTS), Unit::Percent), _ => if fr { sc(*r.pick(&[1.0, 1.0, 2.0, 3.0, 0.5, 1.5, 0.25]), Unit::Fraction) } else { sc(0.0, Unit::Auto) } };
    p.grid.columns = if r.chance(1, 8) { None } else { Some(r.range(1, 6) as u16) };
    p.grid.rows = if r.bool() { None } else { Some(r.range(1, 5) as u16) };
    let fr = r.chance(2, 3);
    p.grid.column_widths = (0..r.below(5)).map(|_| spec(r, fr)).collect();
    let fr = r.chance(2, 3);
    p.grid.row_heights = (0..r.below(4)).map(|_| spec(r, fr)).collect();
    let gut = |r: &mut Rng| if r.chance(1, 5) { sc(*r.pick(&[5.0, 10.0]), Unit::Percent) } else { sc(r.below(4) as f64, Unit::Cells) };
    p.grid.gutter = (gut(r), gut(r));
    if r.chance(1, 4) { p.width = Some(sc(0.0, Unit::Auto)); }
    if r.chance(1, 4) { p.height = Some(sc(0.0, Unit::Auto)); }
}

fn run13(cx: &mut Cx) -> R {
    let r = &mut cx.r;
    let mut p = ComputedStyle::default();
    p.layout = LK::Grid;
    grid_parent(r, &mut p);
    let (a, v) = area(r);
    let ns: Vec<(Node, ComputedStyle)> = (0..r.below(13)).map(|_| { let mut n = node(r); let s = flow_style(r, &mut n, LK::Grid); (n, s) }).collect();
    let kids = kids_of(r, &ns);
    let o = GridOpts { min_col: if r.chance(1, 5) { Some(r.below(30) as u16) } else { None } };
    let mk = || { let mut g = GridLayout::new(); g.min_column_width = o.min_col; g };
    let ch: Vec<LayoutChild> = kids.iter().map(|k| k.child()).collect();
    let (real, info) = guard(|| (got(&mk().arrange(&p, &ch, region(a), v)), mk().compute_track_info(&p, &ch, region(a)))).map_err(|e| format!("{e}\n{}", desc(&p, &kids, a, v)))?;
    let (want, occ) = grid(&p, &kids, a, &o);
    check(cx, &p, &kids, a, v, real.clone(), want)?;
    ensure_eq!(info.cell_occupancy, occ, "cell occupancy\n{}", desc(&p, &kids, a, v));
    // without explicit rows nobody is dropped
    if p.grid.rows.is_none() { ensure_eq!(real.len(), kids.len(), "children placed\n{}", desc(&p, &kids, a, v)); }
    // the cells lie side by side: no two children overlap unless they are taller than their cell by their own height
    let fits = |i: usize| kids.iter().find(|k| k.idx == i).unwrap().st.height.as_ref().is_none_or(|h| h.unit == Unit::Fraction);
    for (n, (i, x)) in real.iter().enumerate() {
        for (j, y) in &real[n + 1..] {
            if !fits(*i) || !fits(*j) { continue; }
            let o = x.0 < y.0 + y.2 && y.0 < x.0 + x.2 && x.1 < y.1 + y.3 && y.1 < x.1 + x.3;
            ensure!(!(o && x.2 > 0 && y.2 > 0 && x.3 > 0 && y.3 > 0), "children #{i} and #{j} overlap: {x:?} {y:?}\n{}", desc(&p, &kids, a, v));
        }
    }
    cx.add("cells", occ.iter().flatten().flatten().count() as u64);
    Ok(())
}

fn run14(cx: &mut Cx) -> R {
    let r = &mut cx.r;
    let mut p = ComputedStyle::default();
    p.layout = *r.pick(&[LK::Vertical, LK::Horizontal, LK::Grid]);
    if p.layout == LK::Grid { grid_parent(r, &mut p); }
    p.align_horizontal = *r.pick(&[AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right]);
    p.align_vertical = *r.pick(&[AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom]);
    const L: &[&str] = &["default", "above", "below", "x", "y", "z"];
    let layered = r.chance(1, 3);
    if layered && r.chance(2, 3) { let mut l: Vec<String> = L.iter().map(|s| s.to_string()).collect(); r.shuffle(&mut l); l.truncate(1 + r.below(5)); if r.chance(1, 8) { l.push(l[0].clone()); } p.layers = Some(l); }
    let (a, v) = area(r);
    let ns: Vec<(Node, ComputedStyle)> = (0..r.below(10)).map(|_| {
        let mut n = node(r);
        let mut s = flow_style(r, &mut n, p.layout);
        if r.chance(1, 4) {
            s.dock = Some(*r.pick(&[Dock::Top, Dock::Right, Dock::Bottom, Dock::Left]));
            if n.size.width == u16::MAX { n.size.width = 4; }
            if n.size.height == u16::MAX { n.size.height = 2; }
        }
        if r.chance(1, 5) { s.position = Position::Absolute; if n.size.height == u16::MAX { n.size.height = 2; }
            // auto sizes already include the chrome
            if [&s.width, &s.height].iter().any(|x| x.as_ref().is_some_and(|x| x.unit == Unit::Auto)) { s.box_sizing = tcss::types::BoxSizing::BorderBox; } }
        if r.chance(1, 4) {
            let off = |r: &mut Rng| match r.below(3) { 0 => None, 1 => Some(sc(r.i32(-9, 9) as f64, Unit::Cells)), _ => { let mut s = rel(r); if r.bool() { s.value = -s.value; } Some(s) } };
            s.offset_x = off(r);
            s.offset_y = off(r);
        }
        if layered && r.bool() { s.layer = Some(r.pick(L).to_string()); }
        (n, s)
    }).collect();
    let kids = kids_of(r, &ns);
    let ch: Vec<LayoutChild> = kids.iter().map(|k| k.child()).collect();
    let real = guard(|| got(&arrange_children_with_layers(&p, &ch, region(a), v))).map_err(|e| format!("{e}\n{}", desc(&p, &kids, a, v)))?;
    let want = arrange(&p, &kids, a, v);
    for k in &kids {
        if k.st.dock.is_some() { cx.count("docked") } else if k.st.position == Position::Absolute { cx.count("absolute") }
        if k.st.layer.is_some() { cx.count("layered") }
        if k.st.offset_x.is_some() || k.st.offset_y.is_some() { cx.count("offset") }
    }
    check(cx, &p, &kids, a, v, real, want)
}
