//! P11: exports (SVG, plain and ANSI snapshots) say exactly what is on the canvas.
use super::p09_canvas::{self as pc, Model};
use crate::core::*;
use crate::ensure;
use crate::ensure_eq;
use crate::gen_text as gt;
use crossterm::style::Color;
use std::collections::HashMap;
use textual::canvas::{Canvas, Cell, TextAttributes};

pub fn prop() -> Prop {
    Prop { id: "P11", quick: 60_000, thorough: 2_000_000, run, workers: 8,
        rule: "each case paints a random scene on a canvas of 1-24 x 1-8 cells, exports it as SVG, plain snapshot and ANSI snapshot, parses the exports back (strict XML parser, escape-sequence interpreter) and compares every cell's glyph, foreground, background and attributes with the canvas; distinct = distinct exported scenes",
        assumptions: &["dim and reverse have no SVG counterpart and are not compared there", "trailing unstyled blanks need not be exported"] }
}

#[derive(Debug)]
enum Ev { Open(String, HashMap<String, String>), Close(String), Text(String) }
fn ent(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        o.push_str(&rest[..i]);
        let e = rest[i..].find(';').ok_or_else(|| format!("unterminated entity in {s:?}"))?;
        o.push_str(match &rest[i..i + e + 1] { "&lt;" => "<", "&gt;" => ">", "&amp;" => "&", "&quot;" => "\"", "&apos;" => "'", "&#160;" => "\u{a0}", x => return Err(format!("unknown entity {x}")) });
        rest = &rest[i + e + 1..];
    }
    o.push_str(rest);
    Ok(o)
}
fn xml(s: &str) -> Result<Vec<Ev>, String> {
    let mut ev = Vec::new();
    let mut stack: Vec<String> = Vec::new();
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(t) = rest.strip_prefix("<!--") { let e = t.find("-->").ok_or("unterminated comment")?; rest = &t[e + 3..]; continue; }
        if let Some(t) = rest.strip_prefix("</") {
            let e = t.find('>').ok_or("unterminated tag")?;
            let n = t[..e].trim().to_string();
            if stack.pop().as_deref() != Some(n.as_str()) { return Err(format!("</{n}> does not match")); }
            ev.push(Ev::Close(n));
            rest = &t[e + 1..];
            continue;
        }
        if let Some(t) = rest.strip_prefix('<') {
            let e = t.find('>').ok_or("unterminated tag")?;
            let (body, selfc) = match t[..e].strip_suffix('/') { Some(b) => (b, true), None => (&t[..e], false) };
            let n: String = body.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
            ensure!(!n.is_empty(), "bad tag {body:?}");
            let mut attrs = HashMap::new();
            let mut a = body[n.len()..].trim_start();
            while !a.is_empty() {
                let q = a.find("=\"").ok_or_else(|| format!("bad attribute in <{body}>"))?;
                let k = a[..q].to_string();
                let v = &a[q + 2..];
                let e = v.find('"').ok_or_else(|| format!("unterminated attribute in <{body}>"))?;
                ensure!(!v[..e].contains('<'), "raw < in attribute");
                ensure!(attrs.insert(k.clone(), ent(&v[..e])?).is_none(), "attribute {k} twice in <{body}>");
                a = v[e + 1..].trim_start();
            }
            if !selfc { stack.push(n.clone()); }
            ev.push(Ev::Open(n.clone(), attrs));
            if selfc { ev.push(Ev::Close(n)); }
            rest = &t[e + 1..];
            continue;
        }
        let e = rest.find('<').unwrap_or(rest.len());
        if let Some(c) = rest[..e].chars().find(|c| c.is_control() && *c != '\n' && *c != '\t') { return Err(format!("control character {c:?} in XML text")); }
        ev.push(Ev::Text(if stack.last().map(|s| s == "style").unwrap_or(false) { rest[..e].into() } else { ent(&rest[..e])? }));
        rest = &rest[e..];
    }
    ensure!(stack.is_empty(), "unclosed {stack:?}");
    Ok(ev)
}
fn rgb(c: Option<Color>) -> Option<String> { match c { Some(Color::Rgb { r, g, b }) => Some(format!("#{r:02x}{g:02x}{b:02x}")), _ => None } }

fn check_svg(svg: &str, cells: &[Cell], w: usize, h: usize) -> R {
    let ev = xml(svg).map_err(|e| format!("not well-formed: {e}"))?;
    let (cw, lh) = (12.2f32, 24.4f32);
    let mut classes: HashMap<String, String> = HashMap::new();
    let mut bg: Vec<Option<String>> = vec![None; w * h];
    let mut fg: Vec<Option<String>> = vec![None; w * h];
    let mut sym: Vec<Option<String>> = vec![None; w * h];
    let mut deco: Vec<String> = vec![String::new(); w * h];
    let (mut in_style, mut in_defs) = (false, false);
    let mut i = 0;
    while i < ev.len() {
        match &ev[i] {
            Ev::Open(n, _) if n == "style" => in_style = true,
            Ev::Close(n) if n == "style" => in_style = false,
            Ev::Open(n, _) if n == "defs" => in_defs = true,
            Ev::Close(n) if n == "defs" => in_defs = false,
            Ev::Text(t) if in_style => for l in t.lines() {
                let l = l.trim();
                if let Some(x) = l.strip_prefix(".terminal-r") { let (n, rest) = x.split_once(" { fill: ").ok_or_else(|| format!("style line {l:?}"))?; let c = rest.trim_end_matches('}').trim(); ensure!(classes.insert(format!("terminal-r{n}"), c.into()).is_none(), "class terminal-r{n} defined twice"); }
            },
            Ev::Open(n, a) if n == "rect" && !in_defs => {
                let f = |k: &str| a.get(k).and_then(|v| v.parse::<f32>().ok()).ok_or_else(|| format!("rect without {k}"));
                let (x, y, ww) = ((f("x")? / cw).round() as usize, (f("y")? / lh).round() as usize, (f("width")? / cw).round() as usize);
                ensure!(y < h && x + ww <= w, "rect outside the canvas: {a:?}");
                for k in x..x + ww { ensure!(bg[y * w + k].is_none(), "two backgrounds at {k},{y}"); bg[y * w + k] = a.get("fill").cloned(); }
            }
            Ev::Open(n, a) if n == "text" => {
                let f = |k: &str| a.get(k).and_then(|v| v.parse::<f32>().ok()).ok_or_else(|| format!("text without {k}"));
                let (x, y, ww) = ((f("x")? / cw).round() as usize, ((f("y")? + 4.0) / lh).round() as usize - 1, (f("textLength")? / cw).round() as usize);
                let Ev::Text(t) = &ev[i + 1] else { return Err("empty text element".into()); };
                let color = match a.get("class").map(|s| s.as_str()) { Some("terminal-default") | None => None, Some(c) => Some(classes.get(c).cloned().ok_or_else(|| format!("class {c} is not defined"))?) };
                let st = a.get("style").cloned().unwrap_or_default();
                let mut k = x;
                for g in gt::graphemes(&t.replace('\u{a0}', " ")) {
                    let gw = gt::dwidth(g);
                    ensure!(y < h && k + gw <= w, "text {t:?} runs outside the canvas");
                    ensure!(sym[y * w + k].is_none(), "two glyphs at {k},{y}");
                    for j in 0..gw { sym[y * w + k + j] = Some(if j == 0 { g.into() } else { String::new() }); fg[y * w + k + j] = color.clone(); deco[y * w + k + j] = st.clone(); }
                    k += gw;
                }
                ensure_eq!(k - x, ww, "textLength of {t:?} in cells");
            }
            _ => {}
        }
        i += 1;
    }
    for y in 0..h { for x in 0..w {
        let c = &cells[y * w + x];
        let j = y * w + x;
        ensure_eq!(bg[j], rgb(c.bg), "background at {x},{y}");
        if c.continuation { ensure!(sym[j].as_deref() == Some(""), "second half of a wide glyph at {x},{y} shows {:?}", sym[j]); continue; }
        match &sym[j] {
            None => ensure!(c.symbol == " " && c.fg.is_none() && c.attrs == TextAttributes::default(), "glyph {:?} at {x},{y} is missing", c.symbol),
            Some(s) => {
                ensure_eq!(s.as_str(), c.symbol.as_str(), "glyph at {x},{y}");
                ensure_eq!(fg[j], rgb(c.fg), "colour of {:?} at {x},{y}", c.symbol);
                let d = &deco[j];
                ensure!(d.contains("bold") == c.attrs.bold && d.contains("italic") == c.attrs.italic && d.contains("underline") == c.attrs.underline && d.contains("line-through") == c.attrs.strike, "style {d:?} of {:?} at {x},{y}, attributes are {:?}", c.symbol, c.attrs);
            }
        }
    } }
    Ok(())
}

fn check_ansi(s: &str, cells: &[Cell], w: usize, h: usize) -> R {
    let lines: Vec<&str> = s.split('\n').collect();
    ensure_eq!(lines.len(), h, "lines of the ANSI snapshot");
    for (y, l) in lines.iter().enumerate() {
        let (mut fg, mut bg, mut at) = (None, None, TextAttributes::default());
        let mut x = 0;
        let mut rest = *l;
        let mut pos: Vec<(String, Option<String>, Option<String>, TextAttributes)> = Vec::new();
        while !rest.is_empty() {
            if let Some(t) = rest.strip_prefix("\x1b[") {
                let e = t.find('m').ok_or("unterminated escape")?;
                let p: Vec<u32> = t[..e].split(';').filter_map(|v| v.parse().ok()).collect();
                match p[..] {
                    [0] => { fg = None; bg = None; at = TextAttributes::default(); }
                    [1] => at.bold = true, [2] => at.dim = true, [3] => at.italic = true, [4] => at.underline = true, [9] => at.strike = true, [7] => at.reverse = true,
                    [39] => fg = None, [49] => bg = None,
                    [38, 2, r, g, b] => fg = Some(format!("#{r:02x}{g:02x}{b:02x}")),
                    [48, 2, r, g, b] => bg = Some(format!("#{r:02x}{g:02x}{b:02x}")),
                    _ => return Err(format!("unknown sequence ESC[{}m", &t[..e])),
                }
                rest = &t[e + 1..];
                continue;
            }
            let e = rest.find("\x1b[").unwrap_or(rest.len());
            for g in gt::graphemes(&rest[..e]) { pos.push((g.to_string(), fg.clone(), bg.clone(), at)); x += 1; }
            rest = &rest[e..];
        }
        ensure_eq!(x, w, "cells in row {y} of the ANSI snapshot");
        for (x, (g, f, b, a)) in pos.iter().enumerate() {
            let c = &cells[y * w + x];
            ensure!(*g == c.symbol && *f == rgb(c.fg) && *b == rgb(c.bg) && *a == c.attrs, "ANSI snapshot at {x},{y}: {g:?} {f:?} on {b:?} {a:?}, canvas has {c:?}");
        }
    }
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    let (w, h) = (cx.r.i32(1, 24), cx.r.i32(1, 8));
    let mut cv = Canvas::new(w as u16, h as u16);
    let mut m = Model::new(w, h);
    for _ in 0..cx.r.below(20) { let d = pc::op(cx, &mut cv, &mut m)?; cx.t(d); }
    if cx.r.bool() { guard(|| cv.put_str(0, 0, "a<b>&\"c' <!--", None, None, TextAttributes::default()))?; cx.count("scenes with XML metacharacters"); }
    let cells: Vec<Cell> = (0..(w * h) as usize).map(|i| cv.cell_at(i).clone()).collect();
    let (wu, hu) = (w as usize, h as usize);
    let title = if cx.r.bool() { Some("a <title> & \"more\"") } else { None };
    let svg = guard(|| cv.to_svg(title))?;
    check_svg(&svg, &cells, wu, hu).map_err(|e| format!("SVG of {w}x{h}: {e}; trace {:?}", cx.trace.iter().rev().take(5).collect::<Vec<_>>()))?;
    let again = guard(|| cv.to_svg(title))?;
    ensure!(again == svg, "two exports of the same canvas differ");
    let ansi = guard(|| cv.to_ansi_snapshot())?;
    check_ansi(&ansi, &cells, wu, hu).map_err(|e| format!("{w}x{h}: {e}; trace {:?}", cx.trace.iter().rev().take(5).collect::<Vec<_>>()))?;
    let plain = guard(|| cv.to_snapshot())?;
    let want: Vec<String> = (0..hu).map(|y| (0..wu).map(|x| cells[y * wu + x].symbol.clone()).collect::<String>().trim_end().to_string()).collect();
    ensure_eq!(plain, want.join("\n"), "plain snapshot");
    cx.obs.evals += 3;
    cx.count("scenes exported");
    cx.add("cells compared", (3 * w * h) as u64);
    cx.distinct(&hash(&svg));
    cx.sample(|| plain.clone());
    Ok(())
}
