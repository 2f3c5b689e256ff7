//! P09: painting on the canvas is clipped, composited and ordered exactly; P10: the terminal shows the canvas after any frame history.
use super::p07_strip;
use crate::core::*;
use crate::ensure;
use crate::ensure_eq;
use crate::gen_text as gt;
use crossterm::style::Color;
use tcss::types::RgbaColor;
use textual::canvas::{Canvas, Region, TextAttributes};

pub fn prop() -> Prop {
    Prop { id: "P09", quick: 150_000, thorough: 6_000_000, run, workers: 8,
        rule: "each case paints 1-30 random operations (characters, strings, styled lines, nested clip regions pushed and popped, clears; coordinates inside, straddling and far outside the canvas; narrow, wide, combining, zero-width and control characters; opaque, translucent and absent colours) on a canvas of 0-24 x 0-8 cells and compares every cell after every operation with a reference painter; distinct = distinct (canvas size, operation sequence)",
        assumptions: &["a wide character cut by a clip edge or overpainted by half leaves blank cells in its own style", "grapheme widths are those of the unicode-display-width crate"] }
}
pub fn prop10() -> Prop {
    Prop { id: "P10", quick: 60_000, thorough: 2_000_000, run: run10, workers: 8,
        rule: "each case runs 1-8 frames (clear, paint, flush) on one canvas with frames that repeat, change slightly or change completely, invalidations and a screen full of foreign text at the start; the bytes written to the terminal are captured from file descriptor 1 and interpreted by an emulator with deferred wrap and wide-cell semantics, and after every flush the emulated screen is compared cell by cell (glyph, colours, attributes) with the canvas; distinct = distinct emulated screens",
        assumptions: &["the terminal implements deferred wrap at the right margin and blanks the other half of an overwritten wide glyph, and measures graphemes like the unicode-display-width crate", "a wide glyph is shown in the style of its first cell"] }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MC { s: String, w: u8, cont: bool, fg: Option<(u8, u8, u8)>, bg: Option<(u8, u8, u8)>, at: TextAttributes }
fn blank() -> MC { MC { s: " ".into(), w: 1, cont: false, fg: None, bg: None, at: TextAttributes::default() } }
#[derive(Clone)]
pub struct Model { w: i32, h: i32, c: Vec<MC>, clip: Vec<(i64, i64, i64, i64)> }

fn fgc(c: &RgbaColor) -> (u8, u8, u8) {
    if c.a >= 1.0 { return (c.r, c.g, c.b); }
    let f = |x: u8| (x as f32 * c.a).round() as u8;
    (f(c.r), f(c.g), f(c.b))
}

impl Model {
    pub fn new(w: i32, h: i32) -> Self { Model { w, h, c: vec![blank(); (w * h) as usize], clip: vec![] } }
    fn cur(&self) -> (i64, i64, i64, i64) { // x1 y1 x2 y2
        let mut r = (0, 0, self.w as i64, self.h as i64);
        for k in &self.clip { r = (r.0.max(k.0), r.1.max(k.1), r.2.min(k.2), r.3.min(k.3)); }
        r
    }
    fn split(&mut self, x: i32, y: i32) {
        // the boundary left of x: if a wide glyph straddles it, blank both its halves
        if x <= 0 || x >= self.w { return; }
        let i = (y * self.w + x) as usize;
        if self.c[i].cont { for j in [i - 1, i] { self.c[j].s = " ".into(); self.c[j].w = 1; self.c[j].cont = false; } }
    }
    fn put(&mut self, x: i64, y: i64, g: &str, fg: &Option<RgbaColor>, bg: &Option<RgbaColor>, at: TextAttributes) {
        let w = gt::dwidth(g) as i64;
        if w == 0 { return; }
        let (x1, y1, x2, y2) = self.cur();
        if y < y1 || y >= y2 { return; }
        let (a, b) = (x.max(x1), (x + w).min(x2));
        if a >= b { return; }
        if (a, b) != (x, x + w) || g.chars().any(|c| c.is_control()) { for cx in a..b { self.put(cx, y, " ", fg, bg, at); } return; }
        let keep = g == " " && fg.is_none() && at == TextAttributes::default() && bg.as_ref().is_some_and(|c| c.a < 1.0 && c.a > 0.0);
        let (xi, yi) = (x as i32, y as i32);
        if !keep { self.split(xi, yi); self.split(xi + w as i32, yi); }
        for k in 0..w {
            let i = ((y * self.w as i64) + x + k) as usize;
            let old = self.c[i].bg;
            let nb = match bg {
                Some(c) if c.a > 0.0 => if c.a >= 1.0 { Some((c.r, c.g, c.b)) } else { let u = old.unwrap_or((0, 0, 0)); let m = c.blend_over(&RgbaColor::rgb(u.0, u.1, u.2)); Some((m.r, m.g, m.b)) },
                _ => old,
            };
            if keep { self.c[i].bg = nb; } else {
                self.c[i] = MC { s: if k == 0 { g.into() } else { " ".into() }, w: if k == 0 { w as u8 } else { 0 }, cont: k > 0, fg: fg.as_ref().map(fgc), bg: nb, at };
            }
        }
    }
    fn text(&mut self, x: i64, y: i64, s: &str, fg: &Option<RgbaColor>, bg: &Option<RgbaColor>, at: TextAttributes) {
        let mut cx = x;
        for g in gt::graphemes(s) { self.put(cx, y, g, fg, bg, at); cx += gt::dwidth(g) as i64; }
    }
}

fn col(r: &mut Rng) -> Option<RgbaColor> {
    if r.chance(1, 3) { return None; }
    Some(RgbaColor::rgba(*r.pick(&[0, 255, 128, 10]), *r.pick(&[0, 255, 77]), r.below(256) as u8, *r.pick(&[1.0, 1.0, 1.0, 0.5, 0.3, 0.0])))
}
fn attrs(r: &mut Rng) -> TextAttributes {
    if r.bool() { return TextAttributes::default(); }
    TextAttributes { bold: r.chance(1, 4), dim: r.chance(1, 5), italic: r.chance(1, 4), underline: r.chance(1, 4), strike: r.chance(1, 5), reverse: r.chance(1, 4) }
}
fn text(r: &mut Rng) -> String {
    let n = r.below(9);
    (0..n).map(|_| match r.below(14) { 0 | 1 => " ", 2 => *r.pick(&["\u{1b}", "\t", "\r", "\n", "\u{7}", "\u{0}", "\u{200b}", "\u{9b}", "\u{7f}", "\u{8}"]), 3 => "[2J", _ => gt::grapheme(r, true) }).collect()
}
fn coord(r: &mut Rng, n: i32) -> i32 {
    match r.below(12) { 0 => -r.i32(1, 12), 1 => n + r.i32(0, 3), 2 => n - 1, 3 => 0, 4 => *r.pick(&[i32::MAX / 2, i32::MIN / 2, 70000, -70000]), _ => r.i32(0, n.max(1) - 1) }
}

fn compare(cv: &Canvas, m: &Model) -> R {
    for y in 0..m.h { for x in 0..m.w {
        let i = (y * m.w + x) as usize;
        let c = cv.cell_at(i);
        let k = &m.c[i];
        let rgb = |c: Option<Color>| match c { None => None, Some(Color::Rgb { r, g, b }) => Some((r, g, b)), Some(_) => Some((1, 2, 3)) };
        let got = MC { s: c.symbol.clone(), w: c.width, cont: c.continuation, fg: rgb(c.fg), bg: rgb(c.bg), at: c.attrs };
        if got != *k { return Err(format!("cell {x},{y} is {got:?}, expected {k:?}")); }
    } }
    Ok(())
}

/// one random painting operation on both
pub fn op(cx: &mut Cx, cv: &mut Canvas, m: &mut Model) -> Result<String, String> {
    let r = &mut cx.r;
    Ok(match r.below(14) {
        0 | 1 => {
            let (x, y, w, h) = (coord(r, m.w), coord(r, m.h), coord(r, m.w), coord(r, m.h));
            let reg = Region::new(x, y, w, h);
            guard(|| cv.push_clip(reg))?;
            let (x2, y2) = ((x as i64 + w.max(0) as i64), (y as i64 + h.max(0) as i64));
            m.clip.push((x as i64, y as i64, x2, y2));
            cx.count("clips pushed");
            format!("push_clip({x},{y},{w},{h})")
        }
        2 => { guard(|| cv.pop_clip())?; m.clip.pop(); "pop_clip".into() }
        3 if r.chance(1, 4) => { guard(|| cv.clear())?; let (w, h) = (m.w, m.h); *m = Model::new(w, h); "clear".into() }
        4 => {
            let (x, y) = (coord(r, m.w), coord(r, m.h));
            let t = if r.chance(1, 4) { *r.pick(gt::WIDE) } else { *r.pick(gt::NARROW) };
            let c = if r.chance(1, 8) { '\u{1b}' } else { t.chars().next().unwrap() };
            let (f, b, a) = (col(r), col(r), attrs(r));
            guard(|| cv.put_char(x, y, c, f.clone(), b.clone(), a))?;
            m.put(x as i64, y as i64, &c.to_string(), &f, &b, a);
            format!("put_char({x},{y},{c:?},{f:?},{b:?},{a:?})")
        }
        5 | 6 => {
            let (x, y) = (coord(r, m.w), coord(r, m.h));
            let n = 1 + r.below(3);
            let ss: Vec<_> = (0..n).map(|_| p07_strip::strip(r)).collect();
            guard(|| cv.render_strips(&ss, x, y))?;
            for (i, s) in ss.iter().enumerate() {
                let mut cx2 = x as i64;
                for seg in s.segments() {
                    let st = seg.style().cloned().unwrap_or_default();
                    let a = TextAttributes { bold: st.bold, dim: st.dim, italic: st.italic, underline: st.underline, strike: st.strike, reverse: st.reverse };
                    m.text(cx2, y as i64 + i as i64, seg.text(), &st.fg, &st.bg, a);
                    cx2 += gt::dwidth(seg.text()) as i64;
                }
            }
            cx.count("styled lines painted");
            format!("render_strips({x},{y},{:?})", ss.iter().map(|s| s.segments().iter().map(|g| (g.text().to_string(), g.style().cloned())).collect::<Vec<_>>()).collect::<Vec<_>>())
        }
        7 => {
            // translucent overlay
            let (x, y) = (coord(r, m.w), coord(r, m.h));
            let n = r.below(8);
            let c = Some(RgbaColor::rgba(r.below(256) as u8, 9, 200, 0.5));
            guard(|| cv.put_str(x, y, &" ".repeat(n), None, c.clone(), TextAttributes::default()))?;
            m.text(x as i64, y as i64, &" ".repeat(n), &None, &c, TextAttributes::default());
            format!("overlay({x},{y},{n},{c:?})")
        }
        _ => {
            let (x, y) = (coord(r, m.w), coord(r, m.h));
            let t = text(r);
            let (f, b, a) = (col(r), col(r), attrs(r));
            guard(|| cv.put_str(x, y, &t, f.clone(), b.clone(), a))?;
            m.text(x as i64, y as i64, &t, &f, &b, a);
            cx.count("strings painted");
            format!("put_str({x},{y},{t:?},{f:?},{b:?},{a:?})")
        }
    })
}

fn run(cx: &mut Cx) -> R {
    let (w, h) = match cx.r.below(200) { 0 => (300, 300), 1 => (0, 5), 2 => (5, 0), _ => (cx.r.i32(1, 24), cx.r.i32(1, 8)) };
    let mut cv = guard(|| Canvas::new(w as u16, h as u16))?;
    let mut m = Model::new(w, h);
    let n = if w > 100 { 4 } else { 1 + cx.r.below(30) };
    let mut h64 = hash(&(w, h));
    for _ in 0..n {
        let d = op(cx, &mut cv, &mut m)?;
        h64 = hash(&(h64, &d));
        cx.t(d);
        compare(&cv, &m).map_err(|e| format!("{w}x{h}: {e} after {:?}", cx.trace.iter().rev().take(6).collect::<Vec<_>>()))?;
        cx.obs.evals += 1;
        cx.add("cells compared", (w * h) as u64);
    }
    // readers
    let (gw, gh) = cv.size();
    ensure!(gw as i32 == w && gh as i32 == h, "size {gw}x{gh}");
    for _ in 0..4 {
        let (x, y) = (coord(&mut cx.r, w), coord(&mut cx.r, h));
        let inside = x >= 0 && y >= 0 && x < w && y < h;
        let c = if inside { Some(&m.c[(y * w + x) as usize]) } else { None };
        ensure_eq!(guard(|| cv.get_char(x, y))?, c.map(|c| c.s.chars().next().unwrap()).unwrap_or('\0'), "get_char({x},{y})");
        ensure_eq!(guard(|| cv.has_bg_at(x, y))?, c.is_some_and(|c| c.bg.is_some()), "has_bg_at({x},{y})");
        let row: String = if y >= 0 && y < h { (0..w).map(|x| m.c[(y * w + x) as usize].s.clone()).collect() } else { String::new() };
        ensure_eq!(guard(|| cv.row_str(y))?, row, "row_str({y})");
    }
    cx.distinct(&h64);
    cx.sample(|| format!("{w}x{h}: {} operations", n));
    Ok(())
}

// ---------------------------------------------------------------- P10

thread_local! { static CAP: std::cell::OnceCell<i32> = const { std::cell::OnceCell::new() }; }
/// run f with file descriptor 1 redirected into memory
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::Write;
    let fd = CAP.with(|c| *c.get_or_init(|| unsafe { libc::memfd_create(c"cap".as_ptr(), 0) }));
    let _ = std::io::stdout().flush();
    unsafe {
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
        let save = libc::dup(1);
        libc::dup2(fd, 1);
        let v = f();
        let _ = std::io::stdout().flush();
        libc::dup2(save, 1);
        libc::close(save);
        let n = libc::lseek(fd, 0, libc::SEEK_END) as usize;
        let mut b = vec![0u8; n];
        let mut at = 0;
        while at < n { let k = libc::pread(fd, b[at..].as_mut_ptr() as *mut _, n - at, at as i64); if k <= 0 { break; } at += k as usize; }
        (v, b)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TC { pub s: String, pub w: u8, pub cont: bool, pub fg: Option<(u8, u8, u8)>, pub bg: Option<(u8, u8, u8)>, pub at: TextAttributes }
pub struct Term { pub w: usize, pub h: usize, pub c: Vec<TC>, x: usize, y: usize, pend: bool, fg: Option<(u8, u8, u8)>, bg: Option<(u8, u8, u8)>, at: TextAttributes, pub printed: u64, pub moves: u64, pub lenient: bool }
impl Term {
    pub fn new(w: usize, h: usize) -> Self {
        Term { w, h, c: vec![TC { s: "#".into(), w: 1, cont: false, fg: Some((9, 9, 9)), bg: Some((8, 8, 8)), at: TextAttributes::default() }; w * h], x: 0, y: 0, pend: false, fg: Some((3, 3, 3)), bg: Some((4, 4, 4)), at: TextAttributes { reverse: true, ..Default::default() }, printed: 0, moves: 0, lenient: false }
    }
    fn erase(&mut self, i: usize) { self.c[i].s = " ".into(); self.c[i].w = 1; self.c[i].cont = false; }
    fn print(&mut self, g: &str) -> R {
        let w = gt::dwidth(g);
        if w == 0 { return Err(format!("zero-width text {g:?} printed on its own")); }
        if self.pend || self.x + w > self.w {
            if self.lenient && w > self.w { return Ok(()); }
            if self.x + w > self.w && !self.pend && !self.lenient { return Err(format!("glyph {g:?} printed across the right margin")); }
            self.x = 0; self.y += 1; self.pend = false;
            if self.y >= self.h && self.lenient { self.y = self.h - 1; }
            if self.y >= self.h { return Err("the terminal scrolled".into()); }
        }
        let i = self.y * self.w + self.x;
        if self.c[i].cont && self.x > 0 { self.erase(i - 1); }
        if self.x + w < self.w && self.c[i + w].cont { self.erase(i + w); }
        for k in 0..w { self.c[i + k] = TC { s: if k == 0 { g.into() } else { " ".into() }, w: if k == 0 { w as u8 } else { 0 }, cont: k > 0, fg: self.fg, bg: self.bg, at: self.at }; }
        self.x += w;
        if self.x >= self.w { self.x = self.w - 1; self.pend = true; }
        self.printed += 1;
        Ok(())
    }
    fn sgr(&mut self, p: &[u32]) -> R {
        let mut i = 0;
        let p = if p.is_empty() { &[0][..] } else { p };
        while i < p.len() {
            match p[i] {
                0 => { self.fg = None; self.bg = None; self.at = TextAttributes::default(); }
                1 => self.at.bold = true, 2 => self.at.dim = true, 3 => self.at.italic = true, 4 => self.at.underline = true, 7 => self.at.reverse = true, 9 => self.at.strike = true,
                39 => self.fg = None, 49 => self.bg = None,
                k @ (38 | 48) => {
                    if p.len() < i + 5 || p[i + 1] != 2 { return Err(format!("colour {p:?}")); }
                    let c = Some((p[i + 2] as u8, p[i + 3] as u8, p[i + 4] as u8));
                    if k == 38 { self.fg = c } else { self.bg = c }
                    i += 4;
                }
                k => return Err(format!("unexpected SGR {k}")),
            }
            i += 1;
        }
        Ok(())
    }
    pub fn feed(&mut self, b: &[u8]) -> R {
        let s = std::str::from_utf8(b).map_err(|e| format!("output is not UTF-8: {e}"))?;
        let mut rest = s;
        while !rest.is_empty() {
            if let Some(t) = rest.strip_prefix("\x1b[") {
                let Some(e) = t.find(|c: char| !(c.is_ascii_digit() || c == ';')) else { return Err("truncated escape sequence".into()); };
                let nums: Vec<u32> = t[..e].split(';').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(9999)).collect();
                match t.as_bytes()[e] {
                    b'm' => self.sgr(&nums)?,
                    b'H' => {
                        let (y, x) = (nums.first().copied().unwrap_or(1) as usize, nums.get(1).copied().unwrap_or(1) as usize);
                        let (y, x) = if self.lenient { (y.clamp(1, self.h), x.clamp(1, self.w)) } else { (y, x) };
                        if y == 0 || x == 0 || y > self.h || x > self.w { return Err(format!("cursor moved outside the screen: row {y} column {x}")); }
                        self.y = y - 1; self.x = x - 1; self.pend = false; self.moves += 1;
                    }
                    k => return Err(format!("unexpected escape sequence ESC[{}{}", &t[..e], k as char)),
                }
                rest = &t[e + 1..];
                continue;
            }
            let end = rest.find("\x1b[").unwrap_or(rest.len());
            let (run, tail) = rest.split_at(end);
            rest = tail;
            if let Some(c) = run.chars().find(|c| c.is_control()) { return Err(format!("control character {c:?} sent to the terminal as text")); }
            for g in gt::graphemes(run) { self.print(g)?; }
        }
        Ok(())
    }
    pub fn diff(&self, cv: &[textual::canvas::Cell]) -> R {
        for (i, c) in cv.iter().enumerate() {
            let (x, y) = (i % self.w, i / self.w);
            let t = &self.c[i];
            let rgb = |c: Option<Color>| match c { Some(Color::Rgb { r, g, b }) => Some((r, g, b)), _ => None };
            let k = TC { s: c.symbol.clone(), w: c.width, cont: c.continuation, fg: rgb(c.fg), bg: rgb(c.bg), at: c.attrs };
            if t.cont && k.cont { continue; }
            if *t != k { return Err(format!("the terminal shows {t:?} at {x},{y}, the canvas has {k:?}")); }
        }
        Ok(())
    }
}

fn run10(cx: &mut Cx) -> R {
    let (w, h) = (cx.r.i32(1, 20), cx.r.i32(1, 6));
    let mut cv = guard(|| Canvas::new(w as u16, h as u16))?;
    let mut term = Term::new(w as usize, h as usize);
    let frames = 1 + cx.r.below(8);
    let mut keep: Vec<u64> = vec![]; // seeds of the ops of the last frame
    for f in 0..frames {
        match cx.r.below(4) {
            0 => keep = (0..cx.r.below(10)).map(|_| cx.r.u64()).collect(),
            1 => {}
            _ => { let k = cx.r.below(keep.len() + 1); if keep.len() > 0 && cx.r.bool() { let j = k % keep.len(); keep[j] = cx.r.u64(); } else { let v = cx.r.u64(); keep.insert(k, v); } }
        }
        guard(|| cv.clear())?;
        let mut m = Model::new(w, h);
        for s in keep.clone() {
            let saved = std::mem::replace(&mut cx.r, Rng::new(s));
            let d = op(cx, &mut cv, &mut m);
            cx.r = saved;
            let d = d?;
            cx.t(format!("frame {f}: {d}"));
        }
        if f > 0 && cx.r.chance(1, 10) {
            // something else scribbled over the screen: the application redraws everything
            let mut t = Term::new(w as usize, h as usize);
            std::mem::swap(&mut t.c, &mut term.c);
            guard(|| cv.invalidate())?;
            cx.count("full redraws after the first");
            cx.t(format!("frame {f}: invalidate"));
        }
        let want: Vec<textual::canvas::Cell> = (0..(w * h) as usize).map(|i| cv.cell_at(i).clone()).collect();
        let (res, bytes) = capture(|| guard(|| cv.flush()));
        res?.map_err(|e| format!("flush failed: {e}"))?;
        let (p0, m0) = (term.printed, term.moves);
        let ctx = |cx: &Cx| format!("{w}x{h} frame {f}; trace {:?}; bytes {:?}", cx.trace.iter().rev().take(14).collect::<Vec<_>>(), String::from_utf8_lossy(&bytes));
        term.feed(&bytes).map_err(|e| format!("{e}: {}", ctx(cx)))?;
        term.diff(&want).map_err(|e| format!("{e}: {}", ctx(cx)))?;
        cx.obs.evals += 1;
        cx.count("flushes");
        cx.add("bytes interpreted", bytes.len() as u64);
        cx.add("glyphs printed", term.printed - p0);
        cx.add("cursor moves", term.moves - m0);
        let d = hash(&term.c.iter().map(|c| (c.s.clone(), c.fg, c.bg)).collect::<Vec<_>>());
        cx.distinct(&d);
    }
    cx.sample(|| format!("{w}x{h}, {frames} frames, last screen {:?}", term.c.iter().map(|c| c.s.clone()).collect::<String>()));
    Ok(())
}
