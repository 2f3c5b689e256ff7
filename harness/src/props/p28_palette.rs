//! P28: the command palette: what is listed, what Enter or a click runs, and the life of its providers.
use super::p19_mouse::{cellv, theme};
use crate::core::*;
use crate::{ensure, ensure_eq};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use tcss::parser::StyleSheet;
use textual::canvas::{Canvas, Region};
use textual::command::{CommandPaletteEvent, DiscoveryHit, Hit, Provider, SimpleCommand, SimpleProvider, SystemCommand, SystemCommandsProvider};
use textual::containers::container::Container;
use textual::style_resolver::{InheritedContext, resolve_dirty_styles, resolve_styles};
use textual::widget::app_widget::AppWidget;
use textual::widget::screen::Screen;
use textual::{CommandPalette, KeyCode, MouseEvent, MouseEventKind, Size, Static, Widget};

pub fn prop() -> Prop {
    Prop { id: "P28", quick: 4_000, thorough: 150_000, run, workers: 8,
        rule: "each case is a history of 8-60 steps on a command palette inside an application screen: open (with or without a focus to restore), close, escape, type, backspace, move, Enter, submit, click on a row or outside, replace the providers (0-3 of them, answering after 0-700 ms, with slow startups and shutdowns), let virtual time pass with or without draining; after each step the drawn list, highlight, spinner, events, pending action, focus to restore and every provider's own log are compared with the monitor's account of the history; one case in 40 instead runs providers with real yields on a multi-thread runtime; distinct = distinct histories",
        assumptions: &["virtual time is tokio's paused clock; timers may be 2 ms late", "answers of some providers may be listed before the others have answered, but need not be"] }
}
type M = ();
#[derive(Clone, Debug, PartialEq)]
enum L { Start, Started, Ask(Option<String>, bool), Answer(Vec<Item>), Stop, Stopped }
#[derive(Clone, Debug, PartialEq)]
struct Item { tok: String, action: String, help: Option<String>, score: f32 }
struct Shared { log: Vec<L>, order: Arc<Mutex<u64>>, stamps: Vec<u64> }
type Log = Arc<Mutex<Shared>>;
enum Kind { Made, Simple(SimpleProvider), System(SystemCommandsProvider) }
struct P { log: Log, uid: usize, rng: Rng, asked: u32, start_ms: u64, stop_ms: u64, style: Option<String>, kind: Kind, slow: bool, real: bool }
fn put(log: &Log, l: L) { let mut s = log.lock().unwrap(); let n = { let mut o = s.order.lock().unwrap(); *o += 1; *o }; s.log.push(l); s.stamps.push(n); }
impl P {
    async fn wait(&mut self, ms: u64) {
        if self.real { for _ in 0..ms % 5 { tokio::task::yield_now().await; } if ms % 7 == 3 { tokio::time::sleep(Duration::from_micros(ms * 3)).await; } }
        else if ms > 0 { tokio::time::sleep(Duration::from_millis(ms)).await; }
    }
    fn delay(&mut self) -> u64 { if !self.slow { return 0; } match self.rng.below(5) { 0 | 1 => 0, 2 => self.rng.below(60) as u64, _ => self.rng.below(700) as u64 } }
    fn made(&mut self) -> Vec<Item> {
        let n = match self.rng.below(4) { 0 => 0, 1 => 1, _ => 1 + self.rng.below(4) };
        (0..n).map(|i| {
            let tok = format!("Tk{:02}{:02}{}", self.uid % 100, self.asked % 100, i);
            Item { help: self.rng.chance(1, 3).then(|| format!("Hp {tok}")), action: format!("run.{tok}"), score: *self.rng.pick(&[0.5, 1.0, 1.0, 2.0, 7.5, 1e9, 0.0, -1.0]), tok }
        }).collect()
    }
}
#[async_trait::async_trait]
impl Provider for P {
    async fn startup(&mut self) { put(&self.log, L::Start); let ms = self.start_ms; self.wait(ms).await; put(&self.log, L::Started); }
    async fn shutdown(&mut self) { put(&self.log, L::Stop); let ms = self.stop_ms; self.wait(ms).await; put(&self.log, L::Stopped); }
    fn set_match_style(&mut self, s: String) { match &mut self.kind { Kind::Simple(p) => p.set_match_style(s.clone()), Kind::System(p) => p.set_match_style(s.clone()), _ => {} } self.style = Some(s); }
    async fn search(&mut self, q: &str) -> Vec<Hit> {
        put(&self.log, L::Ask(Some(q.to_string()), self.style.as_ref().is_some_and(|s| !s.is_empty())));
        self.asked += 1;
        let d = self.delay();
        self.wait(d).await;
        let hits = match &mut self.kind { Kind::Made => None, Kind::Simple(p) => Some(p.search(q).await), Kind::System(p) => Some(p.search(q).await) };
        let hits = match hits { Some(h) => h, None => self.made().into_iter().map(|i| Hit { score: i.score, match_display: match self.rng.below(3) { 0 => i.tok.clone(), 1 => format!("[bold]{}[/]", i.tok), _ => format!("[bold underline]T[/]{}", &i.tok[1..]) }, action: i.action, text: i.tok, help: i.help }).collect() };
        put(&self.log, L::Answer(hits.iter().map(|h| Item { tok: h.text.clone(), action: h.action.clone(), help: h.help.clone(), score: h.score }).collect()));
        hits
    }
    async fn discover(&mut self) -> Vec<DiscoveryHit> {
        put(&self.log, L::Ask(None, self.style.as_ref().is_some_and(|s| !s.is_empty())));
        self.asked += 1;
        let d = self.delay();
        self.wait(d).await;
        let hits = match &mut self.kind { Kind::Made => None, Kind::Simple(p) => Some(p.discover().await), Kind::System(p) => Some(p.discover().await) };
        let hits = match hits { Some(h) => h, None => self.made().into_iter().map(|i| DiscoveryHit { display: i.tok.clone(), action: i.action, text: i.tok, help: i.help }).collect() };
        put(&self.log, L::Answer(hits.iter().map(|h| Item { tok: h.text.clone(), action: h.action.clone(), help: h.help.clone(), score: 0.0 }).collect()));
        hits
    }
}
/// A provider's life: (started (asked answered?)* stopped)*; searches may be dropped half way.
fn life(uid: usize, log: &[L]) -> Result<(usize, usize), String> {
    let (mut up, mut busy, mut starts, mut stops) = (false, false, 0, 0);
    for (i, l) in log.iter().enumerate() {
        let bad = |w: &str| Err(format!("provider {uid}: {w}; its calls so far: {:?}", &log[..=i].iter().map(|l| match l { L::Answer(v) => format!("Answer({})", v.len()), l => format!("{l:?}") }).collect::<Vec<_>>()));
        match l {
            L::Start => { if up || busy { return bad("started while running"); } busy = true; starts += 1; }
            L::Started => { up = true; busy = false; }
            L::Ask(_, style) => { if busy { return bad("asked during startup or shutdown"); } if !up { return bad("asked while not started"); } if !style { return bad("asked before it was told the style of matches"); } }
            L::Answer(_) => if !up || busy { return bad("answered outside its session") },
            L::Stop => { if !up || busy { return bad("shut down while not running"); } up = false; busy = true; stops += 1; }
            L::Stopped => busy = false,
        }
    }
    Ok((starts, stops))
}
fn sheet() -> &'static StyleSheet {
    static S: OnceLock<StyleSheet> = OnceLock::new();
    S.get_or_init(|| {
        let mut root = root(true);
        let css = format!("{}\n{}", <Screen<M> as Widget<M>>::base_widget_css(), textual::testing::build_combined_css(root.as_mut(), ""));
        tcss::parser::parse_stylesheet(&css).expect("harness: css")
    })
}
fn th() -> &'static tcss::types::Theme { static T: OnceLock<tcss::types::Theme> = OnceLock::new(); T.get_or_init(theme) }
fn root(run: bool) -> Box<dyn Widget<M>> {
    let body: Box<dyn Widget<M>> = Box::new(Container::new(vec![Box::new(Static::<M>::new("below")) as Box<dyn Widget<M>>]));
    Box::new(AppWidget::new(vec![Box::new(Screen::new(vec![body])) as Box<dyn Widget<M>>, Box::new(CommandPalette::<M>::new_with_run_on_select(run))]))
}
fn pal(root: &mut Box<dyn Widget<M>>) -> &mut CommandPalette<M> { root.get_child_mut(1).and_then(|w| w.as_any_mut()).and_then(|a| a.downcast_mut()).expect("harness: palette") }
fn find(w: &mut dyn Widget<M>, name: &str, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
    if w.type_name() == name { f(w); return; }
    w.for_each_child(&mut |c| find(c, name, f));
}
#[derive(Clone, Debug, PartialEq, Default)]
struct View { rows: Vec<(String, u16, u16, Option<String>)>, nomatch: bool, hl: Option<usize>, busy: bool, text: String }
fn draw(root: &mut Box<dyn Widget<M>>, size: (u16, u16)) -> Canvas {
    let th = th();
    resolve_dirty_styles(root.as_mut(), sheet(), th, &mut VecDeque::new(), false, &InheritedContext::from_theme(th));
    let mut c = Canvas::new(size.0, size.1);
    root.render(&mut c, Region::from_u16(0, 0, size.0, size.1));
    c
}
fn view(root: &mut Box<dyn Widget<M>>, size: (u16, u16), names: &[String]) -> Result<(View, Vec<textual::canvas::Cell>), String> {
    let c = draw(root, size);
    let cells = cellv(&c);
    let mut v = View::default();
    let mut bgs: Vec<String> = vec![];
    for y in 0..size.1 {
        let row: Vec<&textual::canvas::Cell> = (0..size.0 as usize).map(|x| &cells[y as usize * size.0 as usize + x]).collect();
        let mut text = String::new();
        let mut at: Vec<usize> = vec![];
        for (x, c) in row.iter().enumerate() { let s = c.symbol.as_str(); for ch in s.chars() { text.push(ch); at.extend(std::iter::repeat_n(x, ch.len_utf8())); } }
        if y == 4 || text.contains('🔎') { v.text = text.clone(); if text.contains('🔎') { continue; } }
        if text.contains("No matches found") { v.nomatch = true; }
        let t = text.trim();
        if let Some(h) = t.strip_prefix("Hp ") {
            let Some(last) = v.rows.last_mut() else { return Err(format!("help line {t:?} without a command above it")) };
            last.3 = Some(format!("Hp {h}"));
        } else if (t.len() == 7 && t.starts_with("Tk")) || names.iter().any(|n| n == t) {
            let x = at[text.find(t).unwrap()];
            bgs.push(format!("{:?}", row[x].bg));
            v.rows.push((t.to_string(), x as u16, y, None));
        }
    }
    if v.rows.len() >= 3 {
        let odd: Vec<usize> = (0..bgs.len()).filter(|&i| bgs.iter().filter(|b| **b == bgs[i]).count() == 1).collect();
        if odd.len() == 1 { v.hl = Some(odd[0]); } else { return Err(format!("{} of {} rows are highlighted", odd.len(), bgs.len())); }
    } else if v.rows.len() == 2 && bgs[0] == bgs[1] { return Err("neither of two rows is highlighted".into()); }
    find(root.as_mut(), "LoadingIndicator", &mut |w| v.busy = w.has_class("--visible"));
    Ok((v, cells))
}
fn sorted(a: &[Item]) -> Vec<Item> { let mut v = a.to_vec(); v.sort_by(|x, y| y.score.partial_cmp(&x.score).unwrap()); v }

struct Prov { uid: usize, log: Log, mark: usize }
struct Model { open: bool, query: String, restore: Option<usize>, provs: Vec<Prov>, t0: u64, done: Option<u64>, shown_k: usize, list: Vec<Item>, hl: usize, fresh: bool, chosen: Option<Item>, nomatch: bool }
impl Model {
    /// Answers to the current search, in order of arrival.
    fn answers(&self) -> Result<Vec<Vec<Item>>, String> {
        let mut all: Vec<(u64, Vec<Item>)> = vec![];
        let q = self.query.trim();
        for p in &self.provs {
            let s = p.log.lock().unwrap();
            let mut asked = 0;
            for (l, n) in s.log.iter().zip(&s.stamps).skip(p.mark) {
                match l {
                    L::Ask(k, _) => { asked += 1; ensure_eq!(k.as_deref(), (!q.is_empty()).then_some(q), "what provider {} was asked (None: discover)", p.uid); }
                    L::Answer(v) => all.push((*n, v.clone())),
                    _ => {}
                }
            }
            ensure!(asked <= 1, "provider {} was asked {asked} times for one search", p.uid);
        }
        all.sort_by_key(|a| a.0);
        Ok(all.into_iter().map(|a| a.1).collect())
    }
    fn search(&mut self, t: u64) {
        for p in &mut self.provs { p.mark = p.log.lock().unwrap().log.len(); }
        self.t0 = t;
        self.done = None;
        self.shown_k = 0;
        self.fresh = true;
        self.chosen = None;
        if self.provs.is_empty() { self.list.clear(); self.nomatch = false; }
    }
    fn close(&mut self) { self.open = false; self.query.clear(); self.list.clear(); self.nomatch = false; self.chosen = None; self.done = None; }
}
async fn settle() { for _ in 0..30 { tokio::task::yield_now().await; } }

fn run(cx: &mut Cx) -> R {
    let _ = sheet();
    if cx.case % 40 == 9 { return real(cx); }
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().map_err(|e| format!("harness: {e}"))?;
    rt.block_on(paused(cx))
}
const NAMES: &[&str] = &["Quit now", "Open [file]", "Save as…", "Toggle theme", "Bell", "Show keys"];
fn provider(r: &mut Rng, uid: usize, order: &Arc<Mutex<u64>>, real: bool) -> (Prov, Box<dyn Provider>) {
    let log: Log = Arc::new(Mutex::new(Shared { log: vec![], order: order.clone(), stamps: vec![] }));
    let ms = |r: &mut Rng| match r.below(4) { 0 | 1 => 0, 2 => r.below(30) as u64, _ => r.below(300) as u64 };
    let pick = |r: &mut Rng| { let mut v: Vec<(String, bool, bool)> = vec![]; for n in NAMES { if r.bool() { v.push((n.to_string(), r.chance(1, 3), r.chance(3, 4))); } } v };
    let kind = if real { Kind::Made } else { match r.below(8) {
        0 => Kind::Simple(SimpleProvider::new(pick(r).into_iter().map(|(n, h, d)| { let c = SimpleCommand::new(n.clone(), format!("run.{n}")).discoverable(d); if h { c.with_help(format!("Hp {n}")) } else { c } }).collect())),
        1 => Kind::System(SystemCommandsProvider::new(pick(r).into_iter().map(|(n, h, d)| { let c = SystemCommand::new(n.clone(), format!("run.{n}")).discoverable(d); if h { c.with_help(format!("Hp {n}")) } else { c } }).collect())),
        _ => Kind::Made } };
    let p = P { log: log.clone(), uid, rng: Rng::new(r.u64()), asked: 0, start_ms: ms(r), stop_ms: ms(r), style: None, kind, slow: r.chance(2, 3), real };
    (Prov { uid, log, mark: 0 }, Box::new(p))
}

async fn paused(cx: &mut Cx<'_>) -> R {
    let run_on_select = cx.r.chance(2, 3);
    let size = (44 + cx.r.below(20) as u16, 44u16);
    let names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    let mut w = root(run_on_select);
    w.on_resize(Size::new(size.0, size.1));
    let base = tokio::time::Instant::now();
    let now = move || (tokio::time::Instant::now() - base).as_millis() as u64;
    resolve_styles(w.as_mut(), sheet(), th(), &mut VecDeque::new());
    let bare = cellv(&draw(&mut w, size));
    let order = Arc::new(Mutex::new(0));
    let mut m = Model { open: false, query: String::new(), restore: None, provs: vec![], t0: 0, done: None, shown_k: 0, list: vec![], hl: 0, fresh: false, chosen: None, nomatch: false };
    let mut ever: Vec<(usize, Log)> = vec![];
    let mut last = View::default();
    let mut h = hash(&(run_on_select, size));
    let (pause, mut naps) = (cx.case % 50 == 3, 0);
    let steps = 8 + cx.r.below(53);
    for step in 0..=steps {
        let fin = step == steps;
        let mut expect_ev: Vec<String> = vec![];
        let mut expect_action: Option<String> = None;
        let t = now();
        let op = if fin { 0 } else if !m.open { *cx.r.pick(&[0, 1, 2, 2, 2, 2, 3, 4, 5, 13]) } else { *cx.r.pick(&[0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 4, 4, 5, 6, 6, 6, 7, 8, 8, 9, 10, 11, 11, 12, 13]) };
        h = hash(&(h, op));
        let before = (m.list.clone(), m.hl, m.open);
        match op {
            0 => { let d = if fin { 4000 } else { (match cx.r.below(4) { 0 => 1 + cx.r.below(20), 1 => 480 + cx.r.below(60), _ => 1 + cx.r.below(400) }) as u64 }; h = hash(&(h, d)); cx.t(format!("{t}: {d} ms pass")); tokio::time::sleep(Duration::from_millis(d)).await; settle().await; }
            1 => {
                // results may be queued, but the palette has not looked yet
                let d = cx.r.below(500) as u64;
                cx.t(format!("{t}: {d} ms pass unseen"));
                h = hash(&(h, d));
                tokio::time::sleep(Duration::from_millis(d)).await;
                settle().await;

            }
            2 => {
                let f = cx.r.chance(3, 4).then(|| cx.r.below(5));
                cx.t(format!("{t}: open {f:?}"));
                match f { Some(f) => pal(&mut w).open_with_focus(f), None => pal(&mut w).open() }
                if !m.open { m.open = true; if f.is_some() { m.restore = f; } expect_ev.push("Opened".into()); m.query.clear(); m.search(t); }
            }
            3 => {
                let n = if pause { 3 } else { cx.r.below(4) };
                let (mut a, mut b) = (vec![], vec![]);
                for _ in 0..n { let (x, y) = provider(&mut cx.r, ever.len() + 1, &order, false); ever.push((x.uid, x.log.clone())); a.push(x); b.push(y); }
                cx.t(format!("{t}: providers {:?}", a.iter().map(|p| p.uid).collect::<Vec<_>>()));
                h = hash(&(h, n));
                pal(&mut w).set_providers(b);
                m.provs = a;
                if m.open { m.search(t); }
            }
            4 => {
                let c = *cx.r.pick(&['a', 'e', 's', 't', ' ', 'Z']);
                cx.t(format!("{t}: type {c:?}"));
                h = hash(&(h, c));
                pal(&mut w).on_event(KeyCode::Char(c));
                if m.open { m.query.push(c); m.search(t); }
            }
            5 => {
                cx.t(format!("{t}: backspace"));
                pal(&mut w).on_event(KeyCode::Backspace);
                if m.open && m.query.pop().is_some() { m.search(t); }
            }
            6 | 7 => {
                let down = cx.r.chance(2, 3);
                cx.t(format!("{t}: {}", if down { "down" } else { "up" }));
                h = hash(&(h, down));
                pal(&mut w).on_event(if down { KeyCode::Down } else { KeyCode::Up });
                if !m.list.is_empty() { m.hl = if down { (m.hl + 1).min(m.list.len() - 1) } else { m.hl.saturating_sub(1) }; }
            }
            8 | 9 => {
                if op == 8 { cx.t(format!("{t}: enter")); pal(&mut w).on_event(KeyCode::Enter); } else { cx.t(format!("{t}: submit")); pal(&mut w).submit(); }
                if let Some(c) = m.chosen.take() { expect_action = Some(c.action); expect_ev.push("Closed true".into()); m.close(); cx.count("commands run in two steps"); }
                else if let Some(i) = m.list.get(m.hl).cloned() {
                    if m.fresh { cx.count("Enter while another search was running"); }
                    if run_on_select { expect_action = Some(i.action); expect_ev.push("Closed true".into()); m.close(); cx.count("commands run with Enter"); }
                    else { m.query = i.tok.clone(); m.list.clear(); m.chosen = Some(i); cx.count("commands chosen"); }
                }
            }
            10 => { cx.t(format!("{t}: escape")); pal(&mut w).on_event(KeyCode::Esc); if m.open { expect_ev.push("Closed false".into()); m.close(); } }
            11 => {
                if last.rows.is_empty() || m.list.len() != last.rows.len() { continue; }
                let i = cx.r.below(last.rows.len());
                let (tok, x, y, help) = last.rows[i].clone();
                let y = y + (help.is_some() && cx.r.bool()) as u16;
                let x = x + cx.r.below(7) as u16;
                cx.t(format!("{t}: click {tok} at {x},{y}"));
                h = hash(&(h, i));
                for kind in [MouseEventKind::Moved, MouseEventKind::Down(crossterm::event::MouseButton::Left), MouseEventKind::Up(crossterm::event::MouseButton::Left)] {
                    let e = MouseEvent { kind, column: x, row: y, modifiers: crossterm::event::KeyModifiers::empty() };
                    let region = Region::from_u16(0, 0, size.0, size.1);
                    if cx.r.bool() { pal(&mut w).on_mouse(e, region); } else { pal(&mut w).on_mouse_with_sender(e, region); }
                }
                let it = m.list[i].clone();
                ensure_eq!(&it.tok, &tok, "harness: clicked row");
                if run_on_select { expect_action = Some(it.action); expect_ev.push("Closed true".into()); m.close(); cx.count("commands run with a click"); }
                else { m.query = it.tok.clone(); m.list.clear(); m.chosen = Some(it); cx.count("commands chosen with a click"); }
            }
            12 => {
                cx.t(format!("{t}: click outside"));
                let e = MouseEvent { kind: MouseEventKind::Down(crossterm::event::MouseButton::Left), column: cx.r.below(size.0 as usize) as u16, row: cx.r.below(3) as u16, modifiers: crossterm::event::KeyModifiers::empty() };
                pal(&mut w).on_mouse(e, Region::from_u16(0, 0, size.0, size.1));
                if m.open { expect_ev.push("Closed false".into()); m.close(); }
            }
            _ => { cx.t(format!("{t}: close")); pal(&mut w).close(); if m.open { expect_ev.push("Closed false".into()); m.close(); } }
        }
        // the palette shows partial results when it has not changed for a while (in real time)
        if pause && naps < 4 && m.open && m.chosen.is_none() {
            let k = m.answers().map_or(0, |a| a.len());
            if k > m.shown_k && k < m.provs.len() { naps += 1; std::thread::sleep(Duration::from_millis(260)); }
        }
        if op == 1 { continue; }
        // what the palette says
        let t = now();
        let tr = |cx: &Cx| cx.trace.join("\n");
        ensure_eq!(pal(&mut w).take_pending_action(), expect_action.clone(), "the action to run; history:\n{}", tr(cx));
        ensure_eq!(pal(&mut w).take_pending_action(), None, "an action asked for twice; history:\n{}", tr(cx));
        pal(&mut w).drain_updates();
        ensure_eq!(pal(&mut w).tick(), { let mut b = false; find(w.as_mut(), "LoadingIndicator", &mut |w| b = w.has_class("--visible")); b }, "whether the spinner turns");
        ensure_eq!((pal(&mut w).is_open(), pal(&mut w).is_focusable(), pal(&mut w).blocks_mouse_events()), (m.open, m.open, m.open), "open, focusable, takes the mouse; history:\n{}", tr(cx));
        if cx.r.bool() {
            let want = if m.open { None } else { m.restore.take() };
            ensure_eq!(pal(&mut w).take_restore_focus(), want, "focus to restore; history:\n{}", tr(cx));
        }
        let ev = pal(&mut w).take_events();
        let (v, cells) = view(&mut w, size, &names).map_err(|e| format!("{e}; history:\n{}", tr(cx)))?;
        for (uid, log) in &ever { life(*uid, &log.lock().unwrap().log).map_err(|e| format!("{e}; history:\n{}", tr(cx)))?; }
        // what it should say
        if !m.open {
            ensure!(cells == bare, "a closed palette leaves marks on the screen ({v:?}); history:\n{}", tr(cx));
            ensure!(!v.busy, "the spinner of a closed palette is on; history:\n{}", tr(cx));
            last = View::default();
        } else {
            let got = if m.chosen.is_some() { vec![] } else { m.answers().map_err(|e| format!("{e}; history:\n{}", tr(cx)))? };
            let n = m.provs.len();
            let k = got.len();
            let items = got.concat();
            let due = |from: u64, ms: u64| if t >= from + ms + 3 { Some(true) } else if t + 1 < from + ms { Some(false) } else { None };
            let (mut busy, mut nomatch) = (Some(false), Some(false));
            let blank = m.query.trim().is_empty();
            if m.chosen.is_some() {
                m.list.clear();
            } else if n == 0 {
                if !blank { nomatch = due(m.t0, 500); }
            } else if k == n {
                let want = sorted(&items);
                if m.done.is_none() { m.done = Some(t); cx.count("searches answered in full"); }
                if m.shown_k < n {
                    if m.shown_k == 0 { m.hl = 0; } else { m.hl = v.hl.unwrap_or(m.hl.min(want.len().max(1) - 1)); }
                    m.shown_k = n;
                    m.fresh = false;
                    m.nomatch = false;
                    m.list = want;
                }
                if m.list.is_empty() && !blank { nomatch = due(m.done.unwrap(), 500); }
            } else {
                // some have answered: their results may be there already
                busy = due(m.t0, 500);
                let shown: Vec<&str> = v.rows.iter().map(|r| r.0.as_str()).collect();
                let same = m.list.iter().map(|i| i.tok.as_str()).collect::<Vec<_>>() == shown;
                if !same {
                    // what had arrived when the palette last took the time to list results
                    let j = (m.shown_k + 1..=k).find(|&j| sorted(&got[..j].concat()).iter().map(|i| i.tok.as_str()).eq(shown.iter().copied())).unwrap_or(k);
                    let want = sorted(&got[..j].concat());
                    ensure_eq!(want.iter().map(|i| i.tok.as_str()).collect::<Vec<_>>(), shown, "listed commands, some providers having answered; history:\n{}", tr(cx));
                    if m.shown_k == 0 { m.hl = 0; } else { m.hl = v.hl.unwrap_or(0); }
                    m.shown_k = j;
                    m.fresh = false;
                    m.list = want;
                    cx.count("partial results listed");
                }
                if m.nomatch { nomatch = if m.fresh { Some(true) } else { Some(false) }; }
                cx.count("observations with a search under way");
            }
            let shown: Vec<(&str, Option<&str>)> = v.rows.iter().map(|r| (r.0.as_str(), r.3.as_deref())).collect();
            ensure_eq!(shown, m.list.iter().map(|i| (i.tok.as_str(), i.help.as_deref())).collect::<Vec<_>>(), "listed commands ({} of {n} providers have answered); history:\n{}", k, tr(cx));
            if let Some(b) = busy { ensure_eq!(v.busy, b, "spinner ({k} of {n} have answered, {} ms since the search began); history:\n{}", t - m.t0, tr(cx)); if b { cx.count("observations with the spinner on"); } }
            if let Some(b) = nomatch { ensure_eq!(v.nomatch, b, "\"No matches found\" ({k} of {n} answered); history:\n{}", tr(cx)); if b { cx.count("observations of No matches found"); } }
            m.nomatch = v.nomatch;
            if let Some(x) = v.hl { ensure_eq!(x, m.hl, "highlighted row; history:\n{}", tr(cx)); }
            let want = m.query.trim_end();
            ensure!(if m.query.is_empty() { v.text.contains("Search for commands") } else { v.text.contains(want) }, "input shows {:?}, the query is {:?}; history:\n{}", v.text, m.query, tr(cx));
            cx.count("frames checked");
            cx.add("rows checked", v.rows.len() as u64);
            last = v;
        }
        // events
        let mut got: Vec<String> = vec![];
        let mut hls = vec![];
        for e in &ev {
            match e {
                CommandPaletteEvent::Opened => got.push("Opened".into()),
                CommandPaletteEvent::Closed { option_selected } => got.push(format!("Closed {option_selected}")),
                CommandPaletteEvent::OptionHighlighted(o) => {
                    ensure!(!got.iter().any(|g| g.starts_with("Closed")), "highlighted after closing; history:\n{}", tr(cx));
                    let it = m.list.iter().chain(&before.0).find(|i| i.tok == o.text && i.action == o.action && i.help == o.help);
                    ensure!(it.is_some(), "event for a command that is not listed: {o:?}; history:\n{}", tr(cx));
                    hls.push(o);
                }
            }
        }
        ensure_eq!(got, expect_ev, "events; history:\n{}", tr(cx));
        if m.open && !m.list.is_empty() {
            let cur = &m.list[m.hl];
            if let Some(o) = hls.last() { ensure_eq!((o.index, &o.text), (m.hl, &cur.tok), "last highlight event; history:\n{}", tr(cx)); cx.count("highlight events"); }
            else { ensure!(before.2 && before.0.get(before.1).map(|i| &i.tok) == Some(&cur.tok), "no event says that {} is highlighted now; history:\n{}", cur.tok, tr(cx)); }
        }
        if fin && m.open && m.chosen.is_none() {
            for p in &m.provs { ensure!(p.log.lock().unwrap().log[p.mark..].iter().any(|l| matches!(l, L::Ask(..))), "provider {} was never asked; history:\n{}", p.uid, tr(cx)); }
        }
    }
    // everything comes to rest, every provider that was started is shut down
    pal(&mut w).close();
    tokio::time::sleep(Duration::from_millis(5000)).await;
    settle().await;
    pal(&mut w).drain_updates();
    ensure!(cellv(&draw(&mut w, size)) == bare, "a closed palette leaves marks on the screen; history:\n{}", cx.trace.join("\n"));
    for (uid, log) in &ever {
        let (a, b) = life(*uid, &log.lock().unwrap().log)?;
        ensure_eq!(a, b, "provider {uid}: startups and shutdowns; history:\n{}", cx.trace.join("\n"));
        cx.add("provider sessions", a as u64);
    }
    cx.distinct(&h);
    Ok(())
}

/// Lifecycle under real parallelism.
fn real(cx: &mut Cx) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().map_err(|e| format!("harness: {e}"))?;
    let res = rt.block_on(async {
        let mut w = root(true);
        w.on_resize(Size::new(80, 60));
        let order = Arc::new(Mutex::new(0));
        let mut ever: Vec<(usize, Log)> = vec![];
        let mut cur: Vec<Prov> = vec![];
        for _ in 0..60 {
            let p = pal(&mut w);
            match cx.r.below(8) {
                0 => {
                    let (mut a, mut b) = (vec![], vec![]);
                    for _ in 0..1 + cx.r.below(3) { let (x, y) = provider(&mut cx.r, ever.len() + 1, &order, true); ever.push((x.uid, x.log.clone())); a.push(x); b.push(y); }
                    p.set_providers(b);
                    cur = a;
                }
                1 | 2 => p.open(),
                3 | 4 => { if p.is_open() { p.close() } else { p.open() } }
                5 => { p.on_event(KeyCode::Char('a')); }
                6 => { p.drain_updates(); }
                _ => {}
            }
            match cx.r.below(4) { 0 => tokio::task::yield_now().await, 1 => std::thread::yield_now(), 2 => { let t = std::time::Instant::now(); let us = cx.r.below(120) as u128; while t.elapsed().as_micros() < us { std::hint::spin_loop(); } } _ => {} }
        }
        let idle = |ever: &[(usize, Log)]| -> Result<bool, String> { let mut ok = true; for (u, l) in ever { let l = l.lock().unwrap(); let (a, b) = life(*u, &l.log)?; ok &= a == b && !matches!(l.log.last(), Some(L::Stop)); } Ok(ok) };
        // one last search, in full
        if !cur.is_empty() {
            let p = pal(&mut w);
            p.close();
            p.open();
            let marks: Vec<usize> = cur.iter().map(|p| p.log.lock().unwrap().log.len()).collect();
            let _ = marks;
            let q = "zz";
            for c in q.chars() { p.on_event(KeyCode::Char(c)); }
            let t = std::time::Instant::now();
            loop {
                let mut all = true;
                for c in &cur { let l = c.log.lock().unwrap(); let last = l.log.iter().rposition(|x| matches!(x, L::Ask(Some(s), _) if s == q)); all &= last.is_some_and(|i| l.log[i..].iter().any(|x| matches!(x, L::Answer(_)))); }
                if all { break; }
                if t.elapsed() > Duration::from_secs(20) { return Err(format!("the last search was not answered within 20 s: {:?}", cur.iter().map(|c| c.log.lock().unwrap().log.len()).collect::<Vec<_>>())); }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            cx.count("parallel searches answered");
        }
        pal(&mut w).close();
        let t = std::time::Instant::now();
        while !idle(&ever)? {
            if t.elapsed() > Duration::from_secs(20) { return Err(format!("providers started but not shut down 20 s after closing: {:?}", ever.iter().map(|(u, l)| (*u, life(*u, &l.lock().unwrap().log))).filter(|(_, l)| !matches!(l, Ok((a, b)) if a == b)).collect::<Vec<_>>())); }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        for (u, l) in &ever { let (a, _) = life(*u, &l.lock().unwrap().log)?; cx.add("provider sessions in parallel", a as u64); }
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_secs(2));
    cx.distinct(&(cx.case, "real"));
    res
}
