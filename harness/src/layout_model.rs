//! Reference model of child arrangement, in exact rational arithmetic, written from the documented semantics.
use crate::core::*;
use tcss::types::border::{BorderEdge, BorderKind};
use tcss::types::geometry::{Scalar, Unit};
use tcss::types::{AlignHorizontal, AlignVertical, BoxSizing, ComputedStyle, Dock, Layout as LK, Position};
use textual::canvas::Size;
use textual::layouts::{LayoutChild, LayoutNode, Viewport};

pub struct Node { pub size: Size, pub area: i32 }
impl Node {
    pub fn h(&self, w: i32) -> i32 { if self.area == 0 { self.size.height as i32 } else { let w = w.max(1); (self.area + w - 1) / w } }
}
impl LayoutNode for Node {
    fn desired_size(&self) -> Size { self.size }
    fn intrinsic_height_for_width(&self, width: u16) -> u16 { self.h(width as i32) as u16 }
}
#[derive(Clone)]
pub struct Kid<'a> { pub idx: usize, pub st: ComputedStyle, pub n: &'a Node }
impl<'a> Kid<'a> {
    pub fn child(&self) -> LayoutChild<'a> { LayoutChild { index: self.idx, style: self.st.clone(), desired_size: self.n.size, node: self.n } }
}

pub type Rect = (i32, i32, i32, i32);

/// exact rational with i128 parts
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Q(pub i128, pub i128);
fn g(a: i128, b: i128) -> i128 { if b == 0 { a.abs().max(1) } else { g(b, a % b) } }
impl Q {
    pub fn new(a: i128, b: i128) -> Q { let d = g(a, b).abs(); let s = if b < 0 { -1 } else { 1 }; Q(s * a / d, s * b / d) }
    pub fn i(a: i32) -> Q { Q(a as i128, 1) }
    pub fn f(v: f64) -> Q { Q::new((v * 1000.0).round() as i128, 1000) }
    pub fn add(self, o: Q) -> Q { Q::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1) }
    pub fn sub(self, o: Q) -> Q { Q::new(self.0 * o.1 - o.0 * self.1, self.1 * o.1) }
    pub fn mul(self, o: Q) -> Q { Q::new(self.0 * o.0, self.1 * o.1) }
    pub fn div(self, o: Q) -> Q { Q::new(self.0 * o.1, self.1 * o.0) }
    pub fn lt(self, o: Q) -> bool { self.sub(o).0 < 0 }
    pub fn max(self, o: Q) -> Q { if self.lt(o) { o } else { self } }
    pub fn min(self, o: Q) -> Q { if o.lt(self) { o } else { self } }
    pub fn floor(self) -> i32 { self.0.div_euclid(self.1) as i32 }
    pub fn round(self) -> i32 { if self.0 < 0 { -(Q(-self.0, self.1).round()) } else { self.add(Q(1, 2)).floor() } }
    pub fn trunc(self) -> i32 { (self.0 / self.1) as i32 }
}

#[derive(Clone, Copy)]
pub struct Basis { pub w: i32, pub h: i32, pub vw: i32, pub vh: i32 }
/// a length in cells; `pct` is what percentages refer to
fn len(s: &Scalar, pct: i32, b: &Basis) -> Q {
    let of = match s.unit { Unit::Percent => pct, Unit::Width => b.w, Unit::Height => b.h, Unit::ViewWidth => b.vw, Unit::ViewHeight => b.vh, _ => return Q::f(s.value) };
    Q::f(s.value).mul(Q::i(of)).div(Q(100, 1))
}
fn edge(e: &BorderEdge) -> i32 { if matches!(e.kind, BorderKind::None | BorderKind::Hidden) { 0 } else { 1 } }
pub fn chrome_w(s: &ComputedStyle) -> i32 { edge(&s.border.left) + edge(&s.border.right) + s.padding.left.value as i32 + s.padding.right.value as i32 }
pub fn chrome_h(s: &ComputedStyle) -> i32 { edge(&s.border.top) + edge(&s.border.bottom) + s.padding.top.value as i32 + s.padding.bottom.value as i32 }
fn cb(s: &ComputedStyle) -> bool { matches!(s.box_sizing, BoxSizing::ContentBox) }
fn mg(s: &ComputedStyle) -> (i32, i32, i32, i32) { (s.margin.top.value as i32, s.margin.right.value as i32, s.margin.bottom.value as i32, s.margin.left.value as i32) }

pub fn vertical(kids: &[Kid], a: Rect, v: Viewport) -> Vec<(usize, Rect)> {
    let b = Basis { w: a.2, h: a.3, vw: v.width, vh: v.height };
    let clamp_w = |s: &ComputedStyle, w: i32| {
        let w = s.max_width.as_ref().map_or(w, |m| w.min(len(m, a.2, &b).trunc()));
        s.min_width.as_ref().map_or(w, |m| w.max(len(m, a.2, &b).trunc()))
    };
    let clamp_h = |s: &ComputedStyle, h: Q| {
        let h = s.max_height.as_ref().map_or(h, |m| h.min(len(m, a.3, &b)));
        s.min_height.as_ref().map_or(h, |m| h.max(len(m, a.3, &b)))
    };
    let width = |k: &Kid| {
        let (_, mr, _, ml) = mg(&k.st);
        let w = match &k.st.width {
            None => (a.2 - ml - mr).max(0),
            Some(w) => match w.unit {
                Unit::Cells => w.value as i32 + if cb(&k.st) { chrome_w(&k.st) } else { 0 },
                Unit::Auto => k.n.size.width as i32,
                Unit::Fraction => (a.2 - ml - mr).max(0),
                _ => (len(w, a.2, &b).round() - ml - mr).max(0),
            },
        };
        clamp_w(&k.st, w)
    };
    // fixed heights, None = a share of what is left
    let fixed: Vec<Option<Q>> = kids.iter().map(|k| {
        let (mt, _, mb, _) = mg(&k.st);
        let h = match &k.st.height {
            None if k.n.size.height == u16::MAX => return None,
            None => Q::i(k.n.size.height as i32),
            Some(h) => match h.unit {
                Unit::Fraction => return None,
                Unit::Cells => Q::i(h.value as i32 + if cb(&k.st) { chrome_h(&k.st) } else { 0 }),
                Unit::Auto => Q::i(k.n.h(width(k))),
                Unit::Width => len(h, 0, &Basis { w: v.width, ..b }),
                Unit::Percent | Unit::Height => len(h, a.3, &b).sub(Q::i(mt + mb)).max(Q::i(0)),
                _ => len(h, a.3, &b),
            },
        };
        Some(clamp_h(&k.st, h))
    }).collect();
    let gaps: Vec<i32> = kids.iter().enumerate().map(|(i, k)| if i == 0 { mg(&k.st).0 } else { mg(&k.st).0.max(mg(&kids[i - 1].st).2) }).collect();
    let mut left = Q::i(a.3);
    for gap in &gaps { left = left.sub(Q::i(*gap)); }
    if let Some(k) = kids.last() { left = left.sub(Q::i(mg(&k.st).2)); }
    let mut frs = Q::i(0);
    let fr = |k: &Kid| k.st.height.as_ref().map_or(Q(1, 1), |h| Q::f(h.value));
    for (k, f) in kids.iter().zip(&fixed) { match f { Some(h) => left = left.sub(*h), None => frs = frs.add(fr(k)) } }
    let unit = if frs.0 > 0 && left.0 > 0 { left.div(frs) } else { Q(1, 1) };
    let mut y = Q::i(a.1);
    let mut out = vec![];
    for (i, k) in kids.iter().enumerate() {
        y = y.add(Q::i(gaps[i]));
        let h = fixed[i].unwrap_or_else(|| clamp_h(&k.st, fr(k).mul(unit)));
        let e = y.add(h);
        out.push((k.idx, (a.0 + mg(&k.st).3, y.floor(), width(k), (e.floor() - y.floor()).max(0))));
        y = e;
    }
    out
}

pub fn horizontal(kids: &[Kid], a: Rect, v: Viewport) -> Vec<(usize, Rect)> {
    let b = Basis { w: a.2, h: a.3, vw: v.width, vh: v.height };
    let clamp_w = |s: &ComputedStyle, w: i32| {
        let w = s.max_width.as_ref().map_or(w, |m| w.min(len(m, a.2, &b).trunc()));
        s.min_width.as_ref().map_or(w, |m| w.max(len(m, a.2, &b).trunc()))
    };
    let gaps: Vec<i32> = kids.iter().enumerate().map(|(i, k)| if i == 0 { mg(&k.st).3 } else { mg(&k.st).3.max(mg(&kids[i - 1].st).1) }).collect();
    let mut left = a.2 - gaps.iter().sum::<i32>() - kids.last().map_or(0, |k| mg(&k.st).1);
    // fixed widths: fractions of a cell are carried over to the next fixed child
    let mut ws = vec![0; kids.len()];
    let mut share: Vec<(usize, Q)> = vec![];
    let mut carry = Q::i(0);
    for (i, k) in kids.iter().enumerate() {
        let fill = k.n.size.width == u16::MAX;
        let q = match &k.st.width {
            Some(w) if w.unit == Unit::Fraction => { share.push((i, Q::f(w.value))); continue; }
            Some(w) if w.unit != Unit::Auto => len(w, a.2, &b).add(Q::i(if cb(&k.st) { chrome_w(&k.st) } else { 0 })),
            _ if fill => { share.push((i, Q(1, 1))); continue; }
            _ => Q::i(k.n.size.width as i32),
        }.add(carry);
        carry = q.sub(Q::i(q.floor()));
        ws[i] = clamp_w(&k.st, q.floor());
        left -= ws[i];
    }
    let left = left.max(0);
    let total = share.iter().fold(Q::i(0), |t, (_, q)| t.add(*q));
    if total.0 > 0 && left > 0 {
        for (i, q) in &share { ws[*i] = Q::i(left).mul(*q).div(total).floor(); }
        let mut spare = left - share.iter().map(|(i, _)| ws[*i]).sum::<i32>();
        for (i, _) in &share { if spare > 0 { ws[*i] += 1; spare -= 1; } }
    }
    for (i, _) in &share { ws[*i] = clamp_w(&kids[*i].st, ws[*i]); }
    let mut x = a.0;
    let mut out = vec![];
    for (i, k) in kids.iter().enumerate() {
        x += gaps[i];
        let (mt, _, mb, _) = mg(&k.st);
        let fill = (a.3 - mt - mb).max(0);
        let h = match &k.st.height {
            None => fill,
            Some(h) => match h.unit {
                Unit::Auto => k.n.h(ws[i]),
                Unit::Fraction => fill,
                Unit::Cells => h.value as i32 + if cb(&k.st) { chrome_h(&k.st) } else { 0 },
                _ => (len(h, a.3, &b).trunc() + if cb(&k.st) { chrome_h(&k.st) } else { 0 } - mt - mb).max(0),
            },
        };
        let h = k.st.max_height.as_ref().map_or(h, |m| h.min(len(m, a.3, &b).trunc()));
        let h = k.st.min_height.as_ref().map_or(h, |m| h.max(len(m, a.3, &b).trunc()));
        out.push((k.idx, (x, a.1 + mt, ws[i], h)));
        x += ws[i];
    }
    out
}

/// sizes of `n` tracks
fn tracks(specs: &[Scalar], n: usize, avail: i32, gutter: i32, content: Option<&[i32]>) -> Vec<i32> {
    if n == 0 { return vec![]; }
    let room = avail - gutter * (n as i32 - 1);
    if let (true, Some(c)) = (specs.is_empty(), content) {
        let t: i32 = c.iter().sum();
        return c.iter().map(|s| if t <= room || t == 0 { (*s).max(1) } else { (*s as i64 * room as i64 / t as i64).max(1) as i32 }).collect();
    }
    let room = room.max(0);
    let one = [Scalar { value: 1.0, unit: Unit::Fraction }];
    let specs = if specs.is_empty() { &one[..] } else { specs };
    let spec = |i: usize| &specs[i % specs.len()];
    let weight = |s: &Scalar| match s.unit { Unit::Fraction => Q::f(s.value), _ => Q(1, 1) };
    let has_fr = (0..n).any(|i| spec(i).unit == Unit::Fraction && spec(i).value > 0.0);
    let flex = |s: &Scalar| if has_fr { s.unit == Unit::Fraction } else { s.unit == Unit::Auto };
    let fixed = |s: &Scalar| match s.unit { Unit::Percent => len(s, room, &Basis { w: 0, h: 0, vw: 0, vh: 0 }).trunc(), Unit::Fraction | Unit::Auto => 0, _ => s.value as i32 };
    let left = room - (0..n).map(|i| fixed(spec(i))).sum::<i32>();
    let total = (0..n).filter(|i| flex(spec(*i))).fold(Q::i(0), |t, i| t.add(weight(spec(i))));
    let mut done = Q::i(0);
    (0..n).map(|i| {
        let s = spec(i);
        if flex(s) {
            // the running total of the shares is rounded down
            let before = Q::i(left).mul(done).div(total).floor();
            done = done.add(weight(s));
            Q::i(left).mul(done).div(total).floor() - before
        } else { fixed(s) }
    }).map(|s| s.max(1)).collect()
}

pub struct GridOpts { pub min_col: Option<u16> }
/// returns the placements and, per cell, which child occupies it
pub fn grid(p: &ComputedStyle, kids: &[Kid], a: Rect, o: &GridOpts) -> (Vec<(usize, Rect)>, Vec<Vec<Option<usize>>>) { let g = grid_tracks(p, kids, a, o); (g.0, g.1) }
/// also the sizes of the columns and rows, and the gutters between rows and columns
#[allow(clippy::type_complexity)]
pub fn grid_tracks(p: &ComputedStyle, kids: &[Kid], a: Rect, o: &GridOpts) -> (Vec<(usize, Rect)>, Vec<Vec<Option<usize>>>, Vec<i32>, Vec<i32>, i32, i32) {
    if kids.is_empty() { return (vec![], vec![], vec![], vec![], 0, 0); }
    let gs = &p.grid;
    let cols = match o.min_col { Some(m) if m > 0 && a.2 > 0 => (a.2 / m as i32).max(1) as usize, _ => gs.columns.unwrap_or(1) as usize };
    let span = |k: &Kid| ((k.st.grid_placement.row_span as usize).max(1), (k.st.grid_placement.column_span as usize).max(1));
    // every child goes to the first position after the previous child's where it fits
    let limit = gs.rows.map(|r| r as usize);
    let mut occ: Vec<Vec<Option<usize>>> = vec![];
    let mut at: Vec<(usize, usize, usize, usize)> = vec![]; // of the first children, in order
    let mut cur = 0usize; // row * cols + col
    'kids: for k in kids {
        if cols == 0 { break; }
        let (rs, cs) = span(k);
        loop {
            let (r, c) = (cur / cols, cur % cols);
            if limit.is_some_and(|l| r >= l) { break 'kids; }
            let rs = limit.map_or(rs, |l| rs.min(l - r));
            let cs = cs.min(cols - c);
            while occ.len() < r + rs { occ.push(vec![None; cols]); }
            if (r..r + rs).all(|y| (c..c + cs).all(|x| occ[y][x].is_none())) {
                for y in r..r + rs { for x in c..c + cs { occ[y][x] = Some(k.idx); } }
                at.push((r, c, rs, cs));
                cur += 1;
                break;
            }
            cur += 1;
        }
    }
    let rows = limit.unwrap_or_else(|| at.iter().map(|t| t.0 + t.2).max().unwrap_or(1));
    occ.truncate(rows);
    while occ.len() < rows { occ.push(vec![None; cols]); }
    let z = Basis { w: 0, h: 0, vw: 0, vh: 0 };
    let (gv, gh) = (len(&gs.gutter.0, a.3, &z).trunc(), len(&gs.gutter.1, a.2, &z).trunc());
    let auto = |s: &Option<Scalar>| s.as_ref().is_some_and(|s| s.unit == Unit::Auto);
    let (mut cw, mut ch) = (vec![0; cols], vec![0; rows]);
    for (k, t) in kids.iter().zip(&at) {
        if t.3 == 1 { cw[t.1] = cw[t.1].max(k.n.size.width as i32); }
        if t.2 == 1 { ch[t.0] = ch[t.0].max(k.n.size.height as i32); }
    }
    let tw = tracks(&gs.column_widths, cols, a.2, gh, auto(&p.width).then_some(&cw[..]));
    let th = tracks(&gs.row_heights, rows, a.3, gv, auto(&p.height).then_some(&ch[..]));
    let out = kids.iter().zip(&at).map(|(k, &(r, c, rs, cs))| {
        let x = a.0 + tw[..c].iter().sum::<i32>() + gh * c as i32;
        let y = a.1 + th[..r].iter().sum::<i32>() + gv * r as i32;
        let w = tw[c..c + cs].iter().sum::<i32>() + gh * (cs as i32 - 1);
        let h = th[r..r + rs].iter().sum::<i32>() + gv * (rs as i32 - 1);
        let (mt, mr, mb, ml) = mg(&k.st);
        let kw = match &k.st.width { None => w, Some(s) => match s.unit { Unit::Auto => k.n.size.width as i32, Unit::Fraction => w, _ => len(s, w, &z).round() } }.min(w);
        let kh = match &k.st.height { None => h, Some(s) => match s.unit { Unit::Auto => k.n.h(kw), Unit::Fraction => h, _ => len(s, h, &z).round() } };
        (k.idx, (x + ml, y + mt, (kw - ml - mr).max(0), (kh - mt - mb).max(0)))
    }).collect();
    (out, occ, tw, th, gv, gh)
}

/// everything: layers, docks, flow, alignment, offsets, absolute children
pub fn arrange(p: &ComputedStyle, kids: &[Kid], a: Rect, v: Viewport) -> Vec<(usize, Rect)> {
    let name = |k: &Kid| k.st.layer.clone().unwrap_or_else(|| "default".into());
    let declared = p.layers.clone().unwrap_or_else(|| vec!["default".into()]);
    let mut order: Vec<String> = vec![];
    for k in kids { let n = name(k); if !declared.contains(&n) && !order.contains(&n) { order.push(n); } }
    for n in declared { if !order.contains(&n) { order.push(n); } }
    let mut out = vec![];
    for l in order {
        let ks: Vec<Kid> = kids.iter().filter(|k| name(k) == l).cloned().collect();
        out.extend(arrange_layer(p, &ks, a, v));
    }
    out
}
fn arrange_layer(p: &ComputedStyle, kids: &[Kid], a: Rect, v: Viewport) -> Vec<(usize, Rect)> {
    let (mut t, mut r, mut bo, mut l) = (0, 0, 0, 0);
    let mut out = vec![];
    for k in kids {
        let (w, h) = (k.n.size.width as i32, k.n.size.height as i32);
        let rect = match k.st.dock {
            None => continue,
            Some(Dock::Top) => { t = t.max(h); (a.0, a.1, a.2, h) }
            Some(Dock::Bottom) => { bo = bo.max(h); (a.0, a.1 + a.3 - h, a.2, h) }
            Some(Dock::Left) => { l = l.max(w); (a.0, a.1, w, a.3) }
            Some(Dock::Right) => { r = r.max(w); (a.0 + a.2 - w, a.1, w, a.3) }
        };
        out.push((k.idx, rect));
    }
    let c: Rect = (a.0 + l, a.1 + t, (a.2 - l - r).max(0), (a.3 - t - bo).max(0));
    let flow: Vec<Kid> = kids.iter().filter(|k| k.st.dock.is_none() && k.st.position != Position::Absolute).cloned().collect();
    let mut ps = match p.layout {
        LK::Vertical => vertical(&flow, c, v),
        LK::Horizontal => horizontal(&flow, c, v),
        LK::Grid => grid(p, &flow, c, &GridOpts { min_col: None }).0,
    };
    if !ps.is_empty() {
        let m = |i: usize| mg(&flow.iter().find(|k| k.idx == i).unwrap().st);
        let x1 = ps.iter().map(|(i, q)| q.0 - m(*i).3).min().unwrap();
        let x2 = ps.iter().map(|(i, q)| q.0 + q.2 + m(*i).1).max().unwrap();
        let y1 = ps.iter().map(|(i, q)| q.1 - m(*i).0).min().unwrap();
        let y2 = ps.iter().map(|(i, q)| q.1 + q.3 + m(*i).2).max().unwrap();
        let (sx, sy) = ((c.2 - (x2 - x1)).max(0), (c.3 - (y2 - y1)).max(0));
        let dx = match p.align_horizontal { AlignHorizontal::Left => 0, AlignHorizontal::Center => sx / 2, AlignHorizontal::Right => sx };
        let dy = match p.align_vertical { AlignVertical::Top => 0, AlignVertical::Middle => sy / 2, AlignVertical::Bottom => sy };
        for q in &mut ps { q.1.0 += dx; q.1.1 += dy; }
    }
    out.extend(ps);
    let b = Basis { w: c.2, h: c.3, vw: v.width, vh: v.height };
    for k in kids.iter().filter(|k| k.st.dock.is_none() && k.st.position == Position::Absolute) {
        let s = &k.st;
        let iw = if k.n.size.width == u16::MAX { c.2 } else { k.n.size.width as i32 };
        let w = match &s.width { None => iw, Some(x) => (match x.unit { Unit::Fraction => c.2, Unit::Auto => iw, _ => len(x, c.2, &b).round() }) + if cb(s) && x.unit != Unit::Auto { chrome_w(s) } else { 0 } };
        let w = s.max_width.as_ref().map_or(w, |m| w.min(len(m, c.2, &b).trunc()));
        let w = s.min_width.as_ref().map_or(w, |m| w.max(len(m, c.2, &b).trunc()));
        let h = match &s.height { None => k.n.h(w), Some(x) => (match x.unit { Unit::Fraction => c.3, Unit::Auto => k.n.h(w), _ => len(x, c.3, &b).round() }) + if cb(s) && x.unit != Unit::Auto { chrome_h(s) } else { 0 } };
        let h = s.max_height.as_ref().map_or(h, |m| h.min(len(m, c.3, &b).trunc()));
        let h = s.min_height.as_ref().map_or(h, |m| h.max(len(m, c.3, &b).trunc()));
        out.push((k.idx, (c.0, c.1, w.max(0), h.max(0))));
    }
    for (i, q) in &mut out {
        let s = &kids.iter().find(|k| k.idx == *i).unwrap().st;
        let own = Basis { w: q.2, h: q.3, vw: v.width, vh: v.height };
        let dx = s.offset_x.as_ref().map_or(0, |o| len(o, q.2, &own).trunc());
        let dy = s.offset_y.as_ref().map_or(0, |o| len(o, q.3, &own).trunc());
        q.0 += dx;
        q.1 += dy;
    }
    out
}

// ---- generators ----
pub const PCTS: &[f64] = &[1.0, 5.0, 10.0, 12.5, 20.0, 25.0, 30.0, 33.0, 33.3, 33.4, 40.0, 50.0, 60.0, 62.5, 66.6, 66.7, 75.0, 80.0, 100.0, 100.0, 120.0, 150.0];
pub fn sc(v: f64, u: Unit) -> Scalar { Scalar { value: v, unit: u } }
pub fn rel(r: &mut Rng) -> Scalar { sc(*r.pick(PCTS), *r.pick(&[Unit::Percent, Unit::Percent, Unit::Percent, Unit::Width, Unit::Height, Unit::ViewWidth, Unit::ViewHeight])) }
pub fn size(r: &mut Rng, max: i32) -> Option<Scalar> {
    match r.below(8) {
        0 | 1 => None,
        2 => Some(sc(r.i32(0, max) as f64, Unit::Cells)),
        3 => Some(sc(0.0, Unit::Auto)),
        4 | 5 => Some(sc(*r.pick(&[1.0, 1.0, 1.0, 2.0, 3.0, 0.5, 1.5, 0.25, 7.0, 0.0]), Unit::Fraction)),
        _ => Some(rel(r)),
    }
}
pub fn limit(r: &mut Rng, max: i32) -> Option<Scalar> {
    match r.below(8) { 0 => Some(sc(r.i32(0, max) as f64, Unit::Cells)), 1 => Some(rel(r)), _ => None }
}
pub fn margins(r: &mut Rng, s: &mut ComputedStyle) {
    if r.bool() { return; }
    for e in [&mut s.margin.top, &mut s.margin.right, &mut s.margin.bottom, &mut s.margin.left] { e.value = r.below(4) as f64; }
}
pub fn chrome(r: &mut Rng, s: &mut ComputedStyle) {
    if r.bool() { return; }
    for e in [&mut s.padding.top, &mut s.padding.right, &mut s.padding.bottom, &mut s.padding.left] { e.value = r.below(3) as f64; }
    for e in [&mut s.border.top, &mut s.border.right, &mut s.border.bottom, &mut s.border.left] { e.kind = *r.pick(&[BorderKind::None, BorderKind::Solid, BorderKind::Hidden, BorderKind::Heavy]); }
}
pub fn node(r: &mut Rng) -> Node {
    let d = |r: &mut Rng| match r.below(6) { 0 => u16::MAX, 1 => 0, _ => r.below(14) as u16 };
    Node { size: Size::new(d(r), d(r)), area: if r.bool() { 0 } else { r.i32(1, 80) } }
}
pub fn flow_style(r: &mut Rng, n: &mut Node, layout: LK) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    s.width = size(r, 20);
    s.height = size(r, 8);
    margins(r, &mut s);
    chrome(r, &mut s);
    if layout == LK::Grid {
        // sizes of grid children are percentages or fill; explicit ones only without margins
        let fix = |r: &mut Rng, s: Option<Scalar>| s.map(|s| if matches!(s.unit, Unit::Percent | Unit::Fraction | Unit::Auto | Unit::Cells) { s } else { sc(*r.pick(PCTS), Unit::Percent) });
        s.width = fix(r, s.width.clone());
        s.height = fix(r, s.height.clone());
        if n.size.width == u16::MAX { n.size.width = 5; }
        if n.size.height == u16::MAX { n.size.height = 3; }
        if [&s.width, &s.height].iter().any(|x| x.as_ref().is_some_and(|x| matches!(x.unit, Unit::Auto | Unit::Cells))) { s.margin = Default::default(); }
        if r.chance(1, 3) { s.grid_placement.row_span = r.below(4) as u16; }
        if r.chance(1, 3) { s.grid_placement.column_span = r.below(5) as u16; }
        s.box_sizing = BoxSizing::BorderBox;
        return s;
    }
    if r.chance(1, 3) { s.min_width = limit(r, 25); s.max_width = limit(r, 25); s.min_height = limit(r, 10); s.max_height = limit(r, 10); }
    s.box_sizing = if r.chance(1, 3) { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
    let is = |x: &Option<Scalar>, f: &dyn Fn(Unit) -> bool| x.as_ref().is_some_and(|x| f(x.unit));
    if is(&s.width, &|u| u == Unit::Auto) && n.size.width == u16::MAX && layout == LK::Vertical { n.size.width = 9; }
    if n.area == 0 && n.size.height == u16::MAX && is(&s.height, &|u| u == Unit::Auto) { n.size.height = 4; }
    let rel = |u: Unit| !matches!(u, Unit::Cells | Unit::Auto | Unit::Fraction);
    // relative sizes of content-box children are not defined consistently between layouts
    if is(&s.width, &rel) || is(&s.height, &rel) { s.box_sizing = BoxSizing::BorderBox; }
    s
}
