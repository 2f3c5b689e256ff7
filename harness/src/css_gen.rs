//! Generator of TCSS declarations with an independent statement of what each one means.
use crate::core::*;
use std::rc::Rc;
use tcss::types::*;

pub type Apply = Rc<dyn Fn(&mut ComputedStyle, &Theme)>;
#[derive(Clone)]
pub struct Decl {
    pub prop: String,
    pub toks: Vec<String>,
    pub apply: Apply,
}
pub type ColorFn = Rc<dyn Fn(&Theme) -> RgbaColor>;

fn vcase(r: &mut Rng, s: &str) -> String {
    match r.below(6) { 0 => s.to_uppercase(), 1 => s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(), _ => s.to_string() }
}

/// theme variable lookup, stated independently: exact name, else `<base>-lighten-N` / `-darken-N` of the base, else white
pub fn theme_color(t: &Theme, name: &str) -> RgbaColor {
    if let Some(c) = t.colors.get(name) { return c.clone(); }
    for mode in ["lighten", "darken"] {
        if let Some(i) = name.rfind(&format!("-{mode}-")) {
            if let Ok(n) = name[i + mode.len() + 2..].parse::<f32>() {
                let base = t.colors.get(&name[..i]).cloned().unwrap_or_else(|| RgbaColor::rgb(255, 255, 255));
                return if mode == "lighten" { base.lighten(n) } else { base.darken(n) };
            }
        }
    }
    RgbaColor::rgb(255, 255, 255)
}

pub const VARS: &[&str] = &["primary", "secondary", "panel", "surface", "foreground", "background", "accent", "error", "success", "warning", "boost", "text", "text-muted", "primary-lighten-1", "primary-darken-2", "error-lighten-3", "link-color", "border", "scrollbar", "foreground-muted", "no-such-thing", "panel-lighten-7", "weird", "block-cursor-background"];

pub fn color(r: &mut Rng) -> (Vec<String>, ColorFn) {
    let mut toks = Vec::new();
    let mut alpha: Option<(String, f32)> = if r.chance(1, 4) {
        let t = match r.below(4) { 0 => format!("{}.{}", r.below(100), r.below(10)), 1 => format!("{}.{:02}", r.below(100), r.below(100)), _ => r.below(100).to_string() };
        let v = (t.parse::<f32>().unwrap() / 100.0).clamp(0.0, 1.0);
        Some((t, v))
    } else { None };
    let k = r.below(9);
    // 100% and more only on colours that are opaque anyway
    if matches!(k, 0 | 1 | 5) && r.chance(1, 12) { let n = 100 + r.below(300); alpha = Some((n.to_string(), 1.0)); }
    let base: ColorFn = match k {
        6 => { let v: Vec<usize> = (0..4).map(|_| r.below(16)).collect(); let four = r.bool(); let s: String = v.iter().take(if four { 4 } else { 3 }).map(|x| format!("{x:x}")).collect(); let s = if r.bool() { s.to_uppercase() } else { s }; toks.push(format!("#{s}"));
            let c = RgbaColor::rgba(v[0] as u8 * 17, v[1] as u8 * 17, v[2] as u8 * 17, if four { (v[3] * 17) as f32 / 255.0 } else { 1.0 }); Rc::new(move |_| c.clone()) }
        7 => { let v: Vec<usize> = (0..4).map(|_| r.below(256)).collect(); toks.push(format!("#{:02X}{:02x}{:02x}{:02X}", v[0], v[1], v[2], v[3])); let c = RgbaColor::rgba(v[0] as u8, v[1] as u8, v[2] as u8, v[3] as f32 / 255.0); Rc::new(move |_| c.clone()) }
        8 => { let v: Vec<usize> = (0..3).map(|_| r.below(256)).collect(); let a = r.below(11); let t = format!("{}.{}", a / 10, a % 10); toks.push(format!("rgba({} , {},{}, {t})", v[0], v[1], v[2])); let c = RgbaColor::rgba(v[0] as u8, v[1] as u8, v[2] as u8, t.parse().unwrap()); Rc::new(move |_| c.clone()) }
        0 => { let s = format!("#{:02x}{:02x}{:02x}", r.below(256), r.below(256), r.below(256)); toks.push(s.clone()); let c = RgbaColor::parse(&s).unwrap(); Rc::new(move |_| c.clone()) }
        1 => { let (x, y, z) = (r.below(256), r.below(256), r.below(256)); let sp = if r.bool() { " " } else { "" }; toks.push(format!("rgb({x},{sp}{y},{sp}{z})")); let c = RgbaColor::rgb(x as u8, y as u8, z as u8); Rc::new(move |_| c.clone()) }
        2 => { toks.push("auto".into()); let c = RgbaColor::auto(1.0); Rc::new(move |_| c.clone()) }
        3 => { let v = r.pick(VARS).to_string(); toks.push(format!("${v}")); Rc::new(move |t| theme_color(t, &v)) }
        4 => { toks.push("transparent".into()); let c = RgbaColor::transparent(); Rc::new(move |_| c.clone()) }
        _ => { let (n, v) = *r.pick(crate::css_colors::CSS); toks.push(vcase(r, n)); Rc::new(move |_| RgbaColor::rgb(v.0, v.1, v.2)) }
    };
    if let Some((p, a)) = alpha {
        toks.push(format!("{p}%"));
        let f: ColorFn = Rc::new(move |t| { let mut c = base(t); c.a = a; c });
        return (toks, f);
    }
    (toks, base)
}

pub fn scalar(r: &mut Rng) -> (String, Scalar) {
    if r.chance(1, 8) { return ("auto".into(), Scalar { value: 0.0, unit: Unit::Auto }); }
    let neg = r.chance(1, 10);
    let i = match r.below(8) { 0 => 0, 1 => 100, 2 => r.below(100000), _ => r.below(120) };
    let (s, v) = if r.chance(1, 5) { let d = r.below(100); (format!("{i}.{d:02}"), format!("{i}.{d:02}").parse::<f64>().unwrap()) } else { (format!("{i}"), i as f64) };
    let (u, unit) = *r.pick(&[("", Unit::Cells), ("", Unit::Cells), ("%", Unit::Percent), ("w", Unit::Width), ("h", Unit::Height), ("vw", Unit::ViewWidth), ("vh", Unit::ViewHeight), ("fr", Unit::Fraction)]);
    let v = if neg { -v } else { v };
    (format!("{}{s}{u}", if neg { "-" } else { "" }), Scalar { value: v, unit })
}

fn d(prop: &str, toks: Vec<String>, f: impl Fn(&mut ComputedStyle, &Theme) + 'static) -> Decl {
    Decl { prop: prop.into(), toks, apply: Rc::new(f) }
}

macro_rules! kw {
    ($r:expr, $($s:literal => $v:expr),+ $(,)?) => {{ let xs = [$(($s, $v)),+]; let i = $r.below(xs.len()); (vcase($r, xs[i].0), xs[i].1) }};
}

fn ah(r: &mut Rng) -> (String, AlignHorizontal) { kw!(r, "left" => AlignHorizontal::Left, "center" => AlignHorizontal::Center, "right" => AlignHorizontal::Right) }
fn av(r: &mut Rng) -> (String, AlignVertical) { kw!(r, "top" => AlignVertical::Top, "middle" => AlignVertical::Middle, "bottom" => AlignVertical::Bottom) }
fn ov(r: &mut Rng) -> (String, Overflow) { kw!(r, "hidden" => Overflow::Hidden, "auto" => Overflow::Auto, "scroll" => Overflow::Scroll) }

type EdgeFn = Rc<dyn Fn(&Theme) -> BorderEdge>;
fn edge(r: &mut Rng) -> (Vec<String>, EdgeFn) {
    use BorderKind::*;
    let (k, kind) = kw!(r, "none" => None, "hidden" => None, "ascii" => Ascii, "blank" => Blank, "block" => Block, "dashed" => Dashed, "double" => Double,
        "heavy" => Heavy, "hkey" => Hkey, "inner" => Inner, "outer" => Outer, "panel" => Panel, "round" => Round, "solid" => Solid, "tall" => Tall, "thick" => Thick, "vkey" => Vkey, "wide" => Wide);
    match r.below(5) {
        0 => (vec![k], Rc::new(move |_| BorderEdge { kind, color: Option::None })),
        1 => { let (mut c, f) = color(r); c.push(k); (c, Rc::new(move |t| BorderEdge { kind, color: Some(f(t)) })) }
        _ => { let (c, f) = color(r); let mut v = vec![k]; v.extend(c); (v, Rc::new(move |t| BorderEdge { kind, color: Some(f(t)) })) }
    }
}

fn textstyle(r: &mut Rng) -> (Vec<String>, Rc<dyn Fn(&Theme) -> TextStyle>) {
    if r.chance(1, 8) {
        let v = r.pick(&["link-style", "link-style-hover", "no-style", "block-cursor-text-style", "button-focus-text-style", "input-cursor-text-style"]).to_string();
        return (vec![format!("${v}")], Rc::new(move |t| t.styles.get(&v).cloned().unwrap_or_default()));
    }
    let mut s = TextStyle::default();
    let mut toks = Vec::new();
    for _ in 0..1 + r.below(4) {
        let k = *r.pick(&["none", "bold", "dim", "italic", "underline", "underline2", "blink", "blink2", "reverse", "strike", "overline"]);
        match k { "none" => s = TextStyle::default(), "bold" => s.bold = true, "dim" => s.dim = true, "italic" => s.italic = true, "underline" => s.underline = true, "underline2" => s.underline2 = true,
            "blink" => s.blink = true, "blink2" => s.blink2 = true, "reverse" => s.reverse = true, "strike" => s.strike = true, _ => s.overline = true }
        toks.push(vcase(r, k));
    }
    (toks, Rc::new(move |_| s.clone()))
}

fn or(a: &mut TextStyle, b: &TextStyle) {
    a.bold |= b.bold; a.dim |= b.dim; a.italic |= b.italic; a.underline |= b.underline; a.underline2 |= b.underline2;
    a.blink |= b.blink; a.blink2 |= b.blink2; a.reverse |= b.reverse; a.strike |= b.strike; a.overline |= b.overline;
}

fn frac(r: &mut Rng) -> (String, f64) {
    if r.chance(1, 4) { let p = format!("{}.{}", r.below(130), r.below(100)); let v = (p.parse::<f64>().unwrap() / 100.0).min(1.0); (format!("{p}%"), v) }
    else if r.bool() { let p = r.below(130); (format!("{p}%"), (p as f64 / 100.0).min(1.0)) }
    else { let p = r.below(15); (format!("{}.{}", p / 10, p % 10), format!("{}.{}", p / 10, p % 10).parse::<f64>().unwrap().min(1.0)) }
}

pub const NDECL: usize = 84;

pub fn decl(r: &mut Rng) -> Decl { let k = r.below(NDECL); decl_of(r, k) }

pub fn decl_of(r: &mut Rng, k: usize) -> Decl {
    macro_rules! colr { ($p:literal, $($f:ident).+) => {{ let (t, c) = color(r); d($p, t, move |s, th| s.$($f).+ = Some(c(th))) }}; }
    macro_rules! scal { ($p:literal, $f:ident) => {{ let (t, c) = scalar(r); d($p, vec![t], move |s, _| s.$f = Some(c)) }}; }
    macro_rules! side { ($p:literal, $f:ident, $g:ident) => {{ let (t, c) = scalar(r); d($p, vec![t], move |s, _| s.$f.$g = c) }}; }
    macro_rules! edg { ($p:literal, $f:ident, $g:ident) => {{ let (t, e) = edge(r); d($p, t, move |s, th| s.$f.$g = e(th)) }}; }
    macro_rules! spacing { ($p:literal, $f:ident) => {{
        let n = *r.pick(&[1, 2, 4]);
        let v: Vec<(String, Scalar)> = (0..n).map(|_| scalar(r)).collect();
        let s: Vec<Scalar> = v.iter().map(|x| x.1).collect();
        d($p, v.into_iter().map(|x| x.0).collect(), move |st, _| st.$f = match n { 1 => Spacing { top: s[0], right: s[0], bottom: s[0], left: s[0] }, 2 => Spacing { top: s[0], right: s[1], bottom: s[0], left: s[1] }, _ => Spacing { top: s[0], right: s[1], bottom: s[2], left: s[3] } })
    }}; }
    macro_rules! word { ($p:literal, $k:expr, $f:expr) => {{ let (t, v) = $k; let f = $f; d($p, vec![t], move |s, _| f(s, v)) }}; }
    type CS = ComputedStyle;
    match k {
        0 | 1 => { let (t, c) = color(r); d("color", t, move |s, th| { let c = c(th); s.auto_color = c.auto; s.color = Some(c); }) }
        2 | 3 => colr!("background", background),
        4 => colr!("tint", tint),
        5 => colr!("background-tint", background_tint),
        6 => scal!("width", width),
        7 => scal!("height", height),
        8 => scal!("min-width", min_width),
        9 => scal!("max-width", max_width),
        10 => scal!("min-height", min_height),
        11 => scal!("max-height", max_height),
        12 => spacing!("margin", margin),
        13 => side!("margin-top", margin, top),
        14 => side!("margin-right", margin, right),
        15 => side!("margin-bottom", margin, bottom),
        16 => side!("margin-left", margin, left),
        17 => spacing!("padding", padding),
        18 => side!("padding-top", padding, top),
        19 => side!("padding-right", padding, right),
        20 => side!("padding-bottom", padding, bottom),
        21 => side!("padding-left", padding, left),
        22 => { let (t, e) = edge(r); d("border", t, move |s, th| { let e = e(th); s.border = Border { top: e.clone(), right: e.clone(), bottom: e.clone(), left: e }; }) }
        23 => edg!("border-top", border, top),
        24 => edg!("border-right", border, right),
        25 => edg!("border-bottom", border, bottom),
        26 => edg!("border-left", border, left),
        27 => { let (t, e) = edge(r); d("outline", t, move |s, th| { let e = e(th); s.outline = Border { top: e.clone(), right: e.clone(), bottom: e.clone(), left: e }; }) }
        28 => edg!("outline-top", outline, top),
        29 => edg!("outline-right", outline, right),
        30 => edg!("outline-bottom", outline, bottom),
        31 => edg!("outline-left", outline, left),
        32 => colr!("scrollbar-color", scrollbar.color),
        33 => colr!("scrollbar-color-hover", scrollbar.color_hover),
        34 => colr!("scrollbar-color-active", scrollbar.color_active),
        35 => colr!("scrollbar-background", scrollbar.background),
        36 => colr!("scrollbar-background-hover", scrollbar.background_hover),
        37 => colr!("scrollbar-background-active", scrollbar.background_active),
        38 => colr!("scrollbar-corner-color", scrollbar.corner_color),
        39 => { let (a, b) = (r.below(20) as u16, r.below(20) as u16); if r.bool() { d("scrollbar-size", vec![a.to_string(), b.to_string()], move |s, _| s.scrollbar.size = ScrollbarSize { horizontal: a, vertical: b }) } else { d("scrollbar-size", vec![a.to_string()], move |s, _| s.scrollbar.size = ScrollbarSize { horizontal: a, vertical: a }) } }
        40 => { let a = r.below(65536) as u16; d("scrollbar-size-horizontal", vec![a.to_string()], move |s, _| s.scrollbar.size.horizontal = a) }
        41 => { let a = r.below(65536) as u16; d("scrollbar-size-vertical", vec![a.to_string()], move |s, _| s.scrollbar.size.vertical = a) }
        42 => word!("scrollbar-gutter", kw!(r, "auto" => ScrollbarGutter::Auto, "stable" => ScrollbarGutter::Stable), |s: &mut CS, v| s.scrollbar.gutter = v),
        43 => word!("scrollbar-visibility", kw!(r, "visible" => ScrollbarVisibility::Visible, "hidden" => ScrollbarVisibility::Hidden), |s: &mut CS, v| s.scrollbar.visibility = v),
        44 => word!("box-sizing", kw!(r, "content-box" => BoxSizing::ContentBox, "border-box" => BoxSizing::BorderBox), |s: &mut CS, v| s.box_sizing = v),
        45 => word!("display", kw!(r, "block" => Display::Block, "none" => Display::None), |s: &mut CS, v| s.display = v),
        46 => word!("visibility", kw!(r, "visible" => Visibility::Visible, "hidden" => Visibility::Hidden), |s: &mut CS, v| { s.visibility = v; s.visibility_set = true; }),
        47 => word!("opacity", frac(r), |s: &mut CS, v| s.opacity = v),
        48 => word!("position", kw!(r, "relative" => Position::Relative, "absolute" => Position::Absolute), |s: &mut CS, v| s.position = v),
        49 => word!("overflow-x", ov(r), |s: &mut CS, v| s.overflow_x = v),
        50 => word!("overflow-y", ov(r), |s: &mut CS, v| s.overflow_y = v),
        51 => { let (t, a) = ov(r); if r.bool() { d("overflow", vec![t], move |s, _| { s.overflow_x = a; s.overflow_y = a; }) } else { let (u, b) = ov(r); d("overflow", vec![t, u], move |s, _| { s.overflow_x = a; s.overflow_y = b; }) } }
        52 => { let xs = [("vertical", Layout::Vertical), ("horizontal", Layout::Horizontal), ("grid", Layout::Grid)]; let x = *r.pick(&xs); d("layout", vec![x.0.into()], move |s, _| s.layout = x.1) }
        53 => word!("dock", kw!(r, "top" => Dock::Top, "bottom" => Dock::Bottom, "left" => Dock::Left, "right" => Dock::Right), |s: &mut CS, v| s.dock = Some(v)),
        54 => { let v: Vec<String> = (0..1 + r.below(4)).map(|_| { let w = *r.pick(&["base", "top", "over-lay", "notes_1", "default"]); vcase(r, w) }).collect(); let l: Vec<String> = v.iter().map(|s| s.to_lowercase()).collect(); d("layers", v, move |s, _| s.layers = Some(l.clone())) }
        55 => { let w = *r.pick(&["base", "top", "over-lay", "notes_1"]); let v = vcase(r, w); let l = v.to_lowercase(); d("layer", vec![v], move |s, _| s.layer = Some(l.clone())) }
        56 => { let (a, b) = (r.below(9) as u16, r.below(9) as u16); if r.bool() { d("grid-size", vec![a.to_string(), b.to_string()], move |s, _| { s.grid.columns = Some(a); s.grid.rows = Some(b); }) } else { d("grid-size", vec![a.to_string()], move |s, _| { s.grid.columns = Some(a); s.grid.rows = None; }) } }
        57 => { let v: Vec<(String, Scalar)> = (0..1 + r.below(4)).map(|_| scalar(r)).collect(); let l: Vec<Scalar> = v.iter().map(|x| x.1).collect(); d("grid-columns", v.into_iter().map(|x| x.0).collect(), move |s, _| s.grid.column_widths = l.clone()) }
        58 => { let v: Vec<(String, Scalar)> = (0..1 + r.below(4)).map(|_| scalar(r)).collect(); let l: Vec<Scalar> = v.iter().map(|x| x.1).collect(); d("grid-rows", v.into_iter().map(|x| x.0).collect(), move |s, _| s.grid.row_heights = l.clone()) }
        59 => { let (t, a) = scalar(r); if r.bool() { d("grid-gutter", vec![t], move |s, _| s.grid.gutter = (a, a)) } else { let (u, b) = scalar(r); d("grid-gutter", vec![t, u], move |s, _| s.grid.gutter = (a, b)) } }
        60 => { let a = r.below(9) as u16; d("column-span", vec![a.to_string()], move |s, _| s.grid_placement.column_span = a) }
        61 => { let a = r.below(9) as u16; d("row-span", vec![a.to_string()], move |s, _| s.grid_placement.row_span = a) }
        62 => colr!("link-color", link.color),
        63 => colr!("link-color-hover", link.color_hover),
        64 => colr!("link-background", link.background),
        65 => colr!("link-background-hover", link.background_hover),
        66 => { let (t, f) = textstyle(r); d("link-style", t, move |s, th| s.link.style = f(th)) }
        67 => { let (t, f) = textstyle(r); d("link-style-hover", t, move |s, th| s.link.style_hover = f(th)) }
        68 => word!("text-align", kw!(r, "left" => TextAlign::Left, "center" => TextAlign::Center, "right" => TextAlign::Right, "justify" => TextAlign::Justify, "start" => TextAlign::Start, "end" => TextAlign::End), |s: &mut CS, v| s.text_align = v),
        69 => word!("text-overflow", kw!(r, "clip" => TextOverflow::Clip, "fold" => TextOverflow::Fold, "ellipsis" => TextOverflow::Ellipsis), |s: &mut CS, v| s.text_overflow = v),
        70 => word!("text-wrap", kw!(r, "wrap" => TextWrap::Wrap, "nowrap" => TextWrap::NoWrap), |s: &mut CS, v| s.text_wrap = v),
        71 => { let a = r.below(9) as u16; d("line-pad", vec![a.to_string()], move |s, _| s.line_pad = a) }
        72 => word!("text-opacity", frac(r), |s: &mut CS, v| s.text_opacity = v),
        73 => { let (t, f) = textstyle(r); d("text-style", t, move |s, th| or(&mut s.text_style, &f(th))) }
        74 => word!("content-align-horizontal", ah(r), |s: &mut CS, v| s.content_align_horizontal = v),
        75 => word!("content-align-vertical", av(r), |s: &mut CS, v| s.content_align_vertical = v),
        76 => { let (t, a) = ah(r); let (u, b) = av(r); if r.bool() { d("content-align", vec![t, u], move |s, _| { s.content_align_horizontal = a; s.content_align_vertical = b; }) } else { d("align", vec![t, u], move |s, _| { s.align_horizontal = a; s.align_vertical = b; }) } }
        77 => if r.bool() { word!("align-horizontal", ah(r), |s: &mut CS, v| s.align_horizontal = v) } else { word!("align-vertical", av(r), |s: &mut CS, v| s.align_vertical = v) },
        78 => if r.bool() { word!("border-title-align", ah(r), |s: &mut CS, v| s.border_title_align = v) } else { word!("border-subtitle-align", ah(r), |s: &mut CS, v| s.border_subtitle_align = v) },
        79 => match r.below(4) { 0 => colr!("border-title-color", border_title_color), 1 => colr!("border-subtitle-color", border_subtitle_color), 2 => colr!("border-title-background", border_title_background), _ => colr!("border-subtitle-background", border_subtitle_background) },
        80 => { let (t, f) = loop { let x = textstyle(r); if !x.0[0].starts_with('$') { break x; } }; if r.bool() { d("border-title-style", t, move |s, th| or(&mut s.border_title_style, &f(th))) } else { d("border-subtitle-style", t, move |s, th| or(&mut s.border_subtitle_style, &f(th))) } }
        81 => {
            let (p, pat) = *r.pick(&[("left", 0), ("right", 1), ("cross", 2), ("horizontal", 3), ("vertical", 4), ("\"x\"", 5), ("'▒'", 6), ("\"+\"", 7)]);
            let (c, f) = color(r); let mut t = vec![p.to_string()]; t.extend(c);
            d("hatch", t, move |s, th| s.hatch = Some(Hatch { pattern: match pat { 0 => HatchPattern::Left, 1 => HatchPattern::Right, 2 => HatchPattern::Cross, 3 => HatchPattern::Horizontal, 4 => HatchPattern::Vertical, 5 => HatchPattern::Custom('x'), 6 => HatchPattern::Custom('▒'), _ => HatchPattern::Custom('+') }, color: f(th), opacity: 1.0 }))
        }
        82 => {
            if r.chance(1, 5) { return d("keyline", vec!["none".into()], |s, _| s.keyline = Keyline { style: KeylineStyle::None, color: RgbaColor::transparent() }); }
            let (k, st) = kw!(r, "thin" => KeylineStyle::Thin, "heavy" => KeylineStyle::Heavy, "double" => KeylineStyle::Double);
            let (c, f) = color(r); let mut t = vec![k]; t.extend(c);
            d("keyline", t, move |s, th| s.keyline = Keyline { style: st, color: f(th) })
        }
        _ => match r.below(3) {
            0 => scal!("offset-x", offset_x),
            1 => scal!("offset-y", offset_y),
            _ => { let (t, a) = scalar(r); let (u, b) = scalar(r); d("offset", vec![t, u], move |s, _| { s.offset_x = Some(a); s.offset_y = Some(b); }) }
        },
    }
}

/// unknown property: parsed and ignored
pub fn unknown(r: &mut Rng) -> Decl {
    let p = *r.pick(&["transition", "-x-foo", "z-index", "colour", "font", "widths", "keylines"]);
    let v = *r.pick(&["red", "background 1ms linear, color 2ms", "12px/3 solid", "url(foo)", "a b c", "\"quoted text\""]);
    d(p, vec![v.into()], |_, _| {})
}

/// insignificant whitespace (at least one char if `must`), possibly with comments
pub fn ws(r: &mut Rng, must: bool, comments: bool) -> String {
    let mut s = String::new();
    let n = r.below(3);
    for _ in 0..n {
        match r.below(if comments { 9 } else { 6 }) {
            0 => s.push('\n'), 1 => s.push('\t'), 2 => s.push_str("\r\n"),
            6 => s.push_str("/* c: red; } { $x: 1; */"),
            7 => s.push_str("// line } ; * / comment $y: 2\n"),
            8 => s.push_str("/**/"),
            _ => s.push(' '),
        }
    }
    if must && s.is_empty() { s.push(' '); }
    s
}

pub fn write_decl(r: &mut Rng, dc: &Decl, last: bool, noise: bool) -> String {
    if !noise { return format!("{}: {};", dc.prop, dc.toks.join(" ")); }
    let mut s = String::new();
    s.push_str(&ws(r, false, true));
    s.push_str(&dc.prop);
    s.push_str(&ws(r, false, true));
    s.push(':');
    s.push_str(&ws(r, false, true));
    for (i, t) in dc.toks.iter().enumerate() {
        if i > 0 { s.push_str(&ws(r, true, true)); }
        s.push_str(t);
    }
    if r.chance(1, 8) { s.push_str(&ws(r, true, true)); s.push_str("!important"); }
    s.push_str(&ws(r, false, true));
    if !last || r.bool() { s.push(';'); }
    s
}

pub fn themes() -> &'static Vec<Theme> {
    static T: std::sync::OnceLock<Vec<Theme>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let m = Theme::standard_themes();
        let mut k: Vec<_> = m.keys().cloned().collect();
        k.sort();
        let mut v: Vec<Theme> = k.iter().map(|n| m[n].clone()).collect();
        let mut w = Theme::new("my-ansi", false);
        w.colors.insert("primary".into(), RgbaColor::rgba(1, 2, 3, 0.5));
        w.colors.insert("weird".into(), RgbaColor::auto(0.7));
        v.push(w);
        v.push(Theme::new("nocolor", true));
        v
    })
}
