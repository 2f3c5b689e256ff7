//! P02: colour literals denote the standard colours; colour arithmetic is exact at the ends and stays in between.
use crate::core::*;
use crate::css_colors::CSS;
use crate::gen_text::*;
use crate::{ensure, ensure_eq};
use tcss::types::{ColorSystem, RgbaColor, Theme};

pub fn prop() -> Prop {
    Prop { id: "P02", quick: 400_000, thorough: 30_000_000, run, workers: 8,
        rule: "each case is one colour literal (hex 3/4/6/8, rgb[a], hsl[a], all 148 CSS names with case/space noise, garbage), one arithmetic step (blend, tint, composite, toward, lighten/darken, contrast, inverse) or one generated theme palette, compared with an independent f64 reference; distinct = distinct inputs",
        assumptions: &["integer truncation vs rounding of a blended channel is left free (±1)"] }
}

fn vary_case(r: &mut Rng, s: &str) -> String {
    match r.below(3) { 0 => s.to_uppercase(), 1 => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(), _ => s.to_string() }
}

fn hsl(h: f64, s: f64, l: f64) -> [f64; 3] {
    let c = (1.0 - (2.0 * l - 1.0).abs()) * s;
    let hp = h.rem_euclid(360.0) / 60.0;
    let x = c * (1.0 - (hp % 2.0 - 1.0).abs());
    let (r, g, b) = match hp as i32 { 0 => (c, x, 0.0), 1 => (x, c, 0.0), 2 => (0.0, c, x), 3 => (0.0, x, c), 4 => (x, 0.0, c), _ => (c, 0.0, x) };
    let m = l - c / 2.0;
    [(r + m) * 255.0, (g + m) * 255.0, (b + m) * 255.0]
}

fn near(a: u8, b: f64, tol: f64) -> bool { (a as f64 - b).abs() <= tol }

fn lab_shift(c: &RgbaColor, amount: f64) -> [f64; 3] {
    let lin = |v: u8| { let v = v as f64 / 255.0; if v > 0.04045 { ((v + 0.055) / 1.055).powf(2.4) } else { v / 12.92 } };
    let (r, g, b) = (lin(c.r), lin(c.g), lin(c.b));
    let f = |t: f64| if t > 0.008856 { t.cbrt() } else { 7.787 * t + 16.0 / 116.0 };
    let x = f((r * 41.24 + g * 35.76 + b * 18.05) / 95.047);
    let y = f((r * 21.26 + g * 71.52 + b * 7.22) / 100.0);
    let z = f((r * 1.93 + g * 11.92 + b * 95.05) / 108.883);
    let (l, a, bb) = (116.0 * y - 16.0, 500.0 * (x - y), 200.0 * (y - z));
    let l = (l - amount * 100.0).clamp(0.0, 100.0);
    let y = (l + 16.0) / 116.0;
    let x = a / 500.0 + y;
    let z = y - bb / 200.0;
    let gk = |t: f64| if t > 0.2068930344 { t * t * t } else { (t - 16.0 / 116.0) / 7.787 };
    let (x, y, z) = (0.95047 * gk(x), gk(y), 1.08883 * gk(z));
    let e = |v: f64| { let v = if v > 0.0031308 { 1.055 * v.powf(1.0 / 2.4) - 0.055 } else { 12.92 * v }; (v * 255.0).clamp(0.0, 255.0) };
    [e(x * 3.2406 - y * 1.5372 - z * 0.4986), e(-x * 0.9689 + y * 1.8758 + z * 0.0415), e(x * 0.0557 - y * 0.2040 + z * 1.0570)]
}

fn rnd(r: &mut Rng) -> RgbaColor {
    let v = |r: &mut Rng| *r.pick(&[0u8, 255, 1, 254, 127, 128]);
    if r.chance(1, 6) { return RgbaColor::rgb(v(r), v(r), v(r)); }
    let a = if r.bool() { 1.0 } else { r.below(101) as f32 / 100.0 };
    RgbaColor::rgba(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, a)
}

fn lit(cx: &mut Cx) -> R {
    let r = &mut cx.r;
    let (a, b, c) = (r.below(256) as u8, r.below(256) as u8, r.below(256) as u8);
    let al = r.below(256) as u8;
    let sp = |r: &mut Rng| *r.pick(&["", " ", "  "]);
    let (src, want, wa, tol): (String, [f64; 3], f64, f64) = match r.below(8) {
        0 => (format!("#{a:02x}{b:02x}{c:02x}"), [a as f64, b as f64, c as f64], 1.0, 0.0),
        1 => (format!("#{a:02x}{b:02x}{c:02x}{al:02x}"), [a as f64, b as f64, c as f64], al as f64 / 255.0, 0.0),
        2 => { let (x, y, z) = (a & 15, b & 15, c & 15); (format!("#{x:x}{y:x}{z:x}"), [x as f64 * 17.0, y as f64 * 17.0, z as f64 * 17.0], 1.0, 0.0) }
        3 => { let (x, y, z, w) = (a & 15, b & 15, c & 15, al & 15); (format!("#{x:x}{y:x}{z:x}{w:x}"), [x as f64 * 17.0, y as f64 * 17.0, z as f64 * 17.0], w as f64 * 17.0 / 255.0, 0.0) }
        4 => { let s = format!("rgb({}{a}{},{}{b},{c}{})", sp(r), sp(r), sp(r), sp(r)); (s, [a as f64, b as f64, c as f64], 1.0, 0.0) }
        5 => {
            let n = if r.bool() { "rgba" } else { "rgb" };
            let av = r.range(-20, 130) as f64 / 100.0;
            (format!("{n}({a},{}{b}, {c},{}{av})", sp(r), sp(r)), [a as f64, b as f64, c as f64], av.clamp(0.0, 1.0), 0.0)
        }
        6 => {
            let (h, s, l) = (r.range(-720, 1080), r.below(101), r.below(101));
            let with_a = r.bool();
            let av = r.below(101) as f64 / 100.0;
            let src = if with_a { format!("hsla({h}, {s}%, {l}%, {av})") } else { format!("hsl({h},{s}%,{l}%)") };
            (src, hsl(h as f64, s as f64 / 100.0, l as f64 / 100.0), if with_a { av } else { 1.0 }, 1.0)
        }
        _ => { let (n, v) = *r.pick(CSS); (n.to_string(), [v.0 as f64, v.1 as f64, v.2 as f64], 1.0, 0.0) }
    };
    let named = src.starts_with(|c: char| c.is_alphabetic()) && !src.contains('(');
    let src = if r.chance(1, 3) { vary_case(r, &src) } else { src };
    let src = if r.chance(1, 5) { format!(" {src}\t") } else { src };
    cx.t(format!("literal {src:?}"));
    let got = RgbaColor::parse(&src).map_err(|e| format!("colour {src:?} rejected: {e}"))?;
    ensure!(near(got.r, want[0], tol) && near(got.g, want[1], tol) && near(got.b, want[2], tol), "colour {src:?} parsed as {got:?}, expected {want:?}");
    ensure!((got.a as f64 - wa).abs() < 1e-4, "alpha of {src:?} is {}, expected {wa}", got.a);
    ensure!(!got.auto && got.ansi.is_none() && got.theme_var.is_none(), "literal {src:?} is not a plain colour: {got:?}");
    if named {
        if let Ok(rc) = rich::Color::parse(src.trim()) {
            ensure_eq!(rc.to_rgb(), (got.r, got.g, got.b), "markup and stylesheet disagree on {src:?}");
            cx.count("names agreed between markup and stylesheet");
        }
    }
    cx.count("literals compared");
    cx.distinct(&src);
    cx.sample(|| format!("{src:?} -> {got:?}"));
    Ok(())
}

fn arith(cx: &mut Cx) -> R {
    let (x, y) = (rnd(&mut cx.r), rnd(&mut cx.r));
    let f = *cx.r.clone().pick(&[-0.5f32, 0.0, 0.1, 0.25, 0.5, 0.66, 0.75, 0.9, 1.0, 1.7]);
    cx.r.u64();
    cx.t(format!("x={x:?} y={y:?} f={f}"));
    let ch = |c: &RgbaColor| [c.r as f64, c.g as f64, c.b as f64];
    let lerp = |from: &RgbaColor, to: &RgbaColor, k: f64| { let (p, q) = (ch(from), ch(to)); [p[0] + (q[0] - p[0]) * k, p[1] + (q[1] - p[1]) * k, p[2] + (q[2] - p[2]) * k] };
    let close = |got: &RgbaColor, want: [f64; 3], what: &str| -> R {
        ensure!(near(got.r, want[0], 1.0) && near(got.g, want[1], 1.0) && near(got.b, want[2], 1.0), "{what} of {x:?}, {y:?}, {f}: got {got:?}, expected {want:?}");
        Ok(())
    };
    let kf = (f as f64).clamp(0.0, 1.0);
    match cx.r.below(9) {
        0 => {
            let g = x.blend(&y, f, None);
            close(&g, lerp(&x, &y, kf), "blend")?;
            ensure!((g.a as f64 - (x.a as f64 + (y.a - x.a) as f64 * kf)).abs() < 1e-3, "blend alpha {} for {x:?} {y:?} {f}", g.a);
            if f <= 0.0 { ensure_eq!(g, x, "blend at 0"); }
            if f >= 1.0 { ensure_eq!(g, y, "blend at 1"); }
            let g = x.blend(&y, 0.5, Some(0.3));
            ensure!((g.a - 0.3).abs() < 1e-6, "explicit blend alpha ignored: {}", g.a);
            cx.count("blend");
        }
        1 => {
            let g = x.tint(&y);
            close(&g, lerp(&x, &y, y.a as f64), "tint")?;
            ensure_eq!(g.a, x.a, "tint alpha");
            cx.count("tint");
        }
        2 => {
            let g = x.blend_over(&y);
            close(&g, lerp(&y, &x, x.a as f64), "composite")?;
            if x.a >= 1.0 { ensure_eq!(g, x, "opaque composite"); }
            if x.a <= 0.0 { ensure_eq!((g.r, g.g, g.b), (y.r, y.g, y.b), "transparent composite"); }
            cx.count("composite");
        }
        3 => {
            let g = x.blend_toward(&y, f as f64);
            close(&g, lerp(&y, &x, kf), "blend_toward")?;
            cx.count("blend_toward");
        }
        4 | 5 => {
            let amt = cx.r.range(-120, 120) as f32 / 100.0;
            let g = x.darken(amt);
            let w = lab_shift(&x, amt as f64);
            ensure!(near(g.r, w[0], 2.0) && near(g.g, w[1], 2.0) && near(g.b, w[2], 2.0), "darken({amt}) of {x:?}: got {g:?}, expected {w:?}");
            ensure_eq!(g.a, x.a, "darken alpha");
            let h = x.lighten(-amt);
            ensure_eq!(h, g, "lighten(-a) != darken(a) for {x:?} {amt}");
            cx.count("lightness shift");
        }
        6 => {
            let b = 0.299 * x.r as f64 + 0.587 * x.g as f64 + 0.114 * x.b as f64;
            if (b - 127.5).abs() > 0.5 {
                let w = if b < 127.5 { 255u8 } else { 0 };
                let g = x.contrast_text(0.7);
                ensure!(g.r == w && g.g == w && g.b == w && (g.a - 0.7).abs() < 1e-6, "contrast text on {x:?} is {g:?}");
                let g = x.get_contrasting_color(f);
                if f >= 1.0 { ensure!(g.r == w && g.g == w && g.b == w, "contrast colour on {x:?} is {g:?}"); }
                else if f >= 0.0 { close(&g, lerp(&x, &RgbaColor::rgb(w, w, w), kf), "contrast ratio")?; }
            }
            ensure!((x.perceived_brightness() as f64 - b / 255.0).abs() < 1e-3, "brightness {} of {x:?}", x.perceived_brightness());
            cx.count("contrast");
        }
        7 => {
            let g = x.inverse();
            ensure_eq!((g.r, g.g, g.b, g.a), (255 - x.r, 255 - x.g, 255 - x.b, x.a), "inverse");
            ensure_eq!(g.inverse(), x, "double inverse");
            cx.count("inverse");
        }
        _ => {
            let g = x.with_opacity(f as f64);
            if f >= 1.0 { ensure_eq!(g, x, "opacity 1"); }
            else if f >= 0.0 { ensure!((g.a - x.a * f).abs() < 1e-5 && (g.r, g.g, g.b) == (x.r, x.g, x.b), "opacity {f} of {x:?} is {g:?}"); }
            ensure_eq!(x.is_transparent(), x.a <= 0.0, "is_transparent {x:?}");
            cx.count("opacity");
        }
    }
    cx.distinct(&(x.r, x.g, x.b, y.r, y.g, y.b, f.to_bits()));
    Ok(())
}

fn theme(cx: &mut Cx) -> R {
    let opaque = |r: &mut Rng| RgbaColor::rgb(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8);
    let dark = cx.r.bool();
    let p = opaque(&mut cx.r);
    let mut sys = ColorSystem::new(p.clone(), dark);
    let mut set: Vec<(&str, RgbaColor)> = vec![("primary", p.clone())];
    let names = ["secondary", "warning", "error", "success", "accent", "foreground", "background", "surface", "panel", "boost"];
    for n in names {
        if cx.r.chance(1, 2) { continue; }
        let c = opaque(&mut cx.r);
        sys = match n {
            "secondary" => sys.with_secondary(c.clone()), "warning" => sys.with_warning(c.clone()), "error" => sys.with_error(c.clone()),
            "success" => sys.with_success(c.clone()), "accent" => sys.with_accent(c.clone()), "foreground" => sys.with_foreground(c.clone()),
            "background" => sys.with_background(c.clone()), "surface" => sys.with_surface(c.clone()), "panel" => sys.with_panel(c.clone()), _ => sys.with_boost(c.clone()),
        };
        set.push((n, c));
    }
    let v = sys.generate();
    let get = |n: &str| v.get(n).cloned().ok_or_else(|| format!("theme variable ${n} missing"));
    let near_c = |a: &RgbaColor, b: &RgbaColor| (a.r as i32 - b.r as i32).abs() <= 2 && (a.g as i32 - b.g as i32).abs() <= 2 && (a.b as i32 - b.b as i32).abs() <= 2;
    for (n, c) in &set {
        let g = get(n)?;
        ensure!(near_c(&g, c), "theme slot ${n} set to {c:?} but resolves to {g:?}");
    }
    let has = |n: &str| set.iter().any(|(k, _)| *k == n);
    for (n, fb) in [("secondary", "primary"), ("warning", "primary"), ("accent", "primary"), ("error", "secondary"), ("success", "secondary")] {
        if !has(n) { ensure!(near_c(&get(n)?, &get(fb)?), "unset ${n} should fall back to ${fb}: {:?} vs {:?}", get(n)?, get(fb)?); }
    }
    for base in ["primary", "secondary", "background", "foreground", "panel", "boost", "surface", "warning", "error", "success", "accent"] {
        get(base)?;
        let known = set.iter().find(|(k, _)| *k == base).map(|(_, c)| c.clone());
        for n in 1..=3 {
            get(&format!("{base}-lighten-{n}"))?;
            get(&format!("{base}-darken-{n}"))?;
            let Some(b) = known.clone() else { continue };
            let li = get(&format!("{base}-lighten-{n}"))?;
            let da = get(&format!("{base}-darken-{n}"))?;
            let wl = lab_shift(&b, -(n as f64) * 0.075);
            let wd = lab_shift(&b, n as f64 * 0.075);
            ensure!(near(li.r, wl[0], 6.0) && near(li.g, wl[1], 6.0) && near(li.b, wl[2], 6.0), "${base}-lighten-{n} = {li:?}, expected {wl:?} from {b:?}");
            ensure!(near(da.r, wd[0], 6.0) && near(da.g, wd[1], 6.0) && near(da.b, wd[2], 6.0), "${base}-darken-{n} = {da:?}, expected {wd:?} from {b:?}");
        }
    }
    for base in ["primary", "secondary", "warning", "error", "success", "accent"] {
        let m = get(&format!("{base}-muted"))?;
        let (b, g) = (get(base)?, get("background")?);
        let w = |a: u8, z: u8| a as f64 + (z as f64 - a as f64) * 0.7;
        ensure!(near(m.r, w(b.r, g.r), 3.0) && near(m.g, w(b.g, g.g), 3.0) && near(m.b, w(b.b, g.b), 3.0), "${base}-muted = {m:?} from {b:?} over {g:?}");
    }
    for (k, c) in &v { ensure!(c.a.is_finite() && (0.0..=1.0).contains(&c.a), "theme variable ${k} has alpha {}", c.a); }
    // every standard theme defines every generated variable
    for (name, t) in Theme::standard_themes() {
        for k in v.keys() { ensure!(t.get_color(k).is_some(), "theme {name} lacks ${k}"); }
    }
    cx.count("theme palettes");
    cx.distinct(&(p.r, p.g, p.b, dark, set.len()));
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    match cx.r.below(20) {
        0..=6 => lit(cx),
        7 | 8 => {
            let g = garbage(&mut cx.r, 9);
            let s = match cx.r.below(6) { 0 => format!("#{g}"), 1 => format!("rgb({g})"), 2 => format!("rgb{g}"), 3 => format!("hsl{g}"), 4 => format!("rgba(1,2,3,{g})"), _ => g };
            cx.t(format!("garbage colour {s:?}"));
            if let Ok(c) = RgbaColor::parse(&s) { ensure!(c.a.is_finite() && (0.0..=1.0).contains(&c.a), "colour {s:?} accepted with alpha {}", c.a); cx.count("garbage accepted"); }
            else { cx.count("garbage rejected"); }
            cx.distinct(&s);
            Ok(())
        }
        9 if cx.case % 16 == 0 => theme(cx),
        _ => arith(cx),
    }
}
