//! P01: markup means what its nesting says, for every document; parsing is total.
use crate::core::*;
use crate::gen_text::*;
use crate::{ensure, ensure_eq};
use rich::{Color, ParsedMarkup, Style};
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop { id: "P01", quick: 600_000, thorough: 40_000_000, run, workers: 8,
        rule: "each case builds a random markup document from a nesting tree (styles, hex/rgb/named colours, meta and link tags, escapes, named/auto/omitted closers, multibyte text) together with the style each character must carry, or a garbage string; distinct = distinct (plain text, style runs) or distinct garbage outcome; non-trivial = has at least one tag, escape or bracket",
        assumptions: &["named closers are only generated when a matching tag is open"] }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { if matches!(c, '[' | ']' | '\\') { o.push('\\'); } o.push(c); }
    o
}

#[derive(Clone, Default, Debug, PartialEq)]
struct St { fg: Option<(u8, u8, u8)>, bg: Option<(u8, u8, u8)>, attrs: [bool; 7], meta: Vec<(String, String)> }

fn st_of(s: &Style, meta: &HashMap<String, String>) -> St {
    let t = &s.text;
    let mut m: Vec<_> = meta.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    m.sort();
    St { fg: s.fg.as_ref().map(|c| c.to_rgb()), bg: s.bg.as_ref().map(|c| c.to_rgb()),
         attrs: [t.bold, t.dim, t.italic, t.underline, t.strike, t.reverse, t.blink], meta: m }
}

const NAMED: &[(&str, (u8, u8, u8))] = &[("red", (255, 0, 0)), ("blue", (0, 0, 255)), ("green", (0, 128, 0)), ("white", (255, 255, 255)), ("cyan", (0, 255, 255)), ("orange", (255, 165, 0)), ("tomato", (255, 99, 71)), ("navy", (0, 0, 128))];

fn colour(r: &mut Rng) -> (String, (u8, u8, u8)) {
    let (a, b, c) = (r.below(256) as u8, r.below(256) as u8, r.below(256) as u8);
    match r.below(4) {
        0 => { let (n, v) = *r.pick(NAMED); let n = if r.chance(1, 6) { n.to_uppercase() } else { n.to_string() }; (n, v) }
        1 => (if r.bool() { format!("#{a:02x}{b:02x}{c:02x}") } else { format!("#{a:02X}{b:02x}{c:02X}") }, (a, b, c)),
        2 => { let (x, y, z) = (a & 15, b & 15, c & 15); (format!("#{x:x}{y:x}{z:x}"), (x * 17, y * 17, z * 17)) }
        _ => (format!("rgb({a},{b},{c})"), (a, b, c)),
    }
}

/// returns tag content, name usable in a named closer, and effect
fn tag(r: &mut Rng) -> (String, String, St) {
    let mut st = St::default();
    match r.below(10) {
        0 => {
            let k = *r.pick(&["click", "hover", "k1"]);
            let v = *r.pick(&["app.quit", "do('x')", "", "a=b", "日本", "screen.f(1, 2)"]);
            st.meta.push((format!("@{k}"), v.to_string()));
            let c = if v.is_empty() && r.bool() { format!("@{k}") } else { format!("@{k}={v}") };
            (c.clone(), c, st)
        }
        1 => {
            let v = *r.pick(&["https://x.y/z?q=1", "u", "http://a/b#c"]);
            st.meta.push(("@link".into(), v.to_string()));
            let q = *r.pick(&["", "'", "\""]);
            let c = format!("link={q}{v}{q}");
            (c.clone(), c, st)
        }
        _ => {
            let mut ws: Vec<String> = Vec::new();
            const A: [(&[&str], usize); 7] = [(&["bold", "b"], 0), (&["dim", "d"], 1), (&["italic", "i"], 2), (&["underline", "u"], 3), (&["strike", "s", "strikethrough"], 4), (&["reverse", "r"], 5), (&["blink"], 6)];
            for _ in 0..r.below(3) {
                let (names, ix) = A[r.below(7)];
                let n = r.pick(names).to_string();
                st.attrs[ix] = true;
                ws.push(if r.chance(1, 8) { n.to_uppercase() } else { n });
            }
            if r.chance(1, 2) || ws.is_empty() {
                let (t, v) = colour(r);
                st.fg = Some(v);
                ws.push(t);
            }
            let k = r.below(ws.len().max(1));
            ws.swap(0, k);
            if r.chance(1, 3) {
                let (t, v) = colour(r);
                st.bg = Some(v);
                ws.push(format!("{} {t}", if r.chance(1, 8) { "ON" } else { "on" }));
            }
            let first = ws[0].clone();
            let sep = if r.chance(1, 6) { "  " } else { " " };
            let c = ws.join(sep);
            let _ = first;
            let full = c.clone();
            (c, full, st)
        }
    }
}

struct Doc { src: String, text: String, st: Vec<(usize, St)>, tags: usize }

fn overlay(base: &St, top: &St) -> St {
    let mut s = base.clone();
    if top.fg.is_some() { s.fg = top.fg; }
    if top.bg.is_some() { s.bg = top.bg; }
    for i in 0..7 { s.attrs[i] |= top.attrs[i]; }
    for (k, v) in &top.meta {
        s.meta.retain(|(a, _)| a != k);
        s.meta.push((k.clone(), v.clone()));
    }
    s.meta.sort();
    s
}

fn emit(r: &mut Rng, d: &mut Doc, cur: &St, depth: usize, budget: &mut usize, may_omit: bool) -> bool {
    // returns whether an unclosed tag was left open (then nothing may follow at outer levels)
    let n = 1 + r.below(4);
    for i in 0..n {
        if *budget == 0 { break; }
        *budget -= 1;
        if depth < 5 && r.chance(2, 5) {
            let (content, closer, eff) = tag(r);
            let pad = r.chance(1, 10);
            d.src.push_str(&if pad { format!("[ {content} ]") } else { format!("[{content}]") });
            d.tags += 1;
            let inner = overlay(cur, &eff);
            let last = i == n - 1 || *budget == 0;
            let open = emit(r, d, &inner, depth + 1, budget, may_omit && last);
            if open { return true; }
            if may_omit && last && r.chance(1, 3) { return true; }
            if !pad && r.chance(1, 4) {
                let c = if r.chance(1, 5) { closer.to_uppercase() } else { closer };
                d.src.push_str(&format!("[/{c}]"));
            } else {
                d.src.push_str(if r.chance(1, 8) { "[/ ]" } else { "[/]" });
            }
        } else {
            let t = match r.below(5) {
                0 => "a]b[c\\d".chars().take(1 + r.below(7)).collect::<String>(),
                1 => r.pick(&["\n", " ", "  ", "\t", "x\ny"]).to_string(),
                _ => { let n = 1 + r.below(3); words(r, n, 4, true) }
            };
            for c in t.chars() {
                d.st.push((d.text.len(), cur.clone()));
                d.text.push(c);
            }
            // ']' may legally appear unescaped in text
            let e = esc(&t);
            d.src.push_str(&if r.chance(1, 4) { e.replace("\\]", "]") } else { e });
        }
    }
    false
}

fn well_formed(p: &ParsedMarkup) -> R {
    let t = p.text();
    for s in p.spans() {
        ensure!(s.start < s.end && s.end <= t.len(), "span {s:?} out of bounds of {t:?}");
        ensure!(t.is_char_boundary(s.start) && t.is_char_boundary(s.end), "span {s:?} splits a character of {t:?}");
        ensure!(!(s.style.is_empty() && s.meta.is_empty()), "span {s:?} carries nothing");
    }
    let cat: String = p.segments().map(|(s, _, _)| s).collect();
    ensure_eq!(cat.as_str(), t, "segments() do not concatenate to text()");
    ensure_eq!(p.len(), t.len(), "len()");
    ensure_eq!(p.is_empty(), t.is_empty(), "is_empty()");
    Ok(())
}

fn check_doc(cx: &mut Cx, d: &Doc) -> R {
    cx.t(format!("markup: {:?}", d.src));
    let p = ParsedMarkup::parse(&d.src).map_err(|e| format!("valid markup {:?} rejected: {e}", d.src))?;
    ensure_eq!(p.text(), d.text.as_str(), "plain text of {:?}", d.src);
    well_formed(&p)?;
    for (off, want) in &d.st {
        let mut meta = HashMap::new();
        for s in p.spans_at(*off) { for (k, v) in &s.meta { meta.insert(k.clone(), v.clone()); } }
        let got = st_of(&p.style_at(*off), &meta);
        ensure!(got == *want, "style of character at byte {off} of {:?}: got {got:?}, expected {want:?}", d.src);
    }
    let mut off = 0;
    for (seg, style, meta) in p.segments() {
        let got = st_of(&style, &meta);
        for (i, _) in seg.char_indices() {
            let w = d.st.iter().find(|(o, _)| *o == off + i).map(|(_, s)| s);
            ensure!(w == Some(&got), "segment {seg:?} at {off} of {:?}: got {got:?}, expected {w:?}", d.src);
        }
        off += seg.len();
    }
    if d.tags > 0 { cx.distinct(&(&d.text, format!("{:?}", d.st.iter().map(|x| &x.1).collect::<Vec<_>>()))); }
    cx.add("characters whose style was compared", d.st.len() as u64);
    cx.add("tags", d.tags as u64);
    cx.sample(|| format!("markup {:?} -> {:?}", d.src, d.text));
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    match cx.r.below(10) {
        0..=5 => {
            let mut d = Doc { src: String::new(), text: String::new(), st: vec![], tags: 0 };
            let mut budget = 2 + cx.r.below(30);
            let mut r = cx.r.clone();
            emit(&mut r, &mut d, &St::default(), 0, &mut budget, true);
            cx.count("documents");
            check_doc(cx, &d)
        }
        6 => {
            // escaping is a left inverse for arbitrary text
            let t = garbage(&mut cx.r, 40);
            cx.t(format!("text: {t:?}"));
            let p = ParsedMarkup::parse(&esc(&t)).map_err(|e| format!("escaped text {t:?} rejected: {e}"))?;
            ensure_eq!(p.text(), t.as_str(), "escape round trip");
            ensure!(p.spans().is_empty(), "escaped text {t:?} produced spans {:?}", p.spans());
            cx.count("escape round trips");
            if t.contains(['[', ']', '\\']) { cx.distinct(&t); }
            Ok(())
        }
        7 => {
            // colours are total and exact
            let c = if cx.r.bool() { let (t, v) = colour(&mut cx.r); 
                let got = Color::parse(&t).map_err(|e| format!("colour {t:?} rejected: {e}"))?;
                ensure_eq!(got.to_rgb(), v, "colour {t:?}"); t }
            else { let g = garbage(&mut cx.r, 7); let s = format!("{}{g}", cx.r.pick(&["#", "rgb(", "", "rgb(1,2,3"])); cx.t(format!("colour {s:?}")); let _ = Color::parse(&s); let _ = Style::parse(&s); s };
            cx.count("colour specs");
            cx.distinct(&c);
            Ok(())
        }
        _ => {
            let g = if cx.r.bool() { garbage(&mut cx.r, 30) } else {
                // mutate a valid document
                let mut d = Doc { src: String::new(), text: String::new(), st: vec![], tags: 0 };
                let mut r = cx.r.clone();
                emit(&mut r, &mut d, &St::default(), 0, &mut 12, true);
                cx.r = r;
                let mut cs: Vec<char> = d.src.chars().collect();
                for _ in 0..1 + cx.r.below(3) {
                    if cs.is_empty() { break; }
                    let i = cx.r.below(cs.len());
                    match cx.r.below(3) { 0 => { cs.remove(i); } 1 => { cs.insert(i, *cx.r.pick(&['[', ']', '\\', '/', 'é', '#'])); } _ => { let j = cx.r.below(cs.len()); cs.swap(i, j); } }
                }
                cs.into_iter().collect()
            };
            cx.t(format!("garbage: {g:?}"));
            match ParsedMarkup::parse(&g) {
                Ok(p) => {
                    cx.count("garbage accepted");
                    well_formed(&p)?;
                    let q = ParsedMarkup::parse(&g).map_err(|e| format!("second parse differs: {e}"))?;
                    ensure!(p.text() == q.text() && p.spans() == q.spans(), "parse of {g:?} is not deterministic");
                }
                Err(_) => cx.count("garbage rejected"),
            }
            cx.distinct(&g);
            Ok(())
        }
    }
}
