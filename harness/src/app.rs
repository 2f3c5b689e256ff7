//! Applications run for real on a pseudo-terminal (the child), and the same application driven step by step (the mirror).
use crate::core::*;
use crate::probe::{self, Ev};
use crate::wtree::*;
use std::cell::Cell;
use std::collections::VecDeque;
use std::io::Write;
use std::time::Duration;
use textual::canvas::{Canvas, Region};
use textual::context::{AppContext, EventContext, MountContext};
use textual::message::MessageEnvelope;
use textual::style_resolver::resolve_styles;
use textual::tree::{WidgetTree, clear_all_hover, collect_pending_actions_mut};
use textual::widget::screen::Screen;
use textual::{App, CommandPalette, KeyCode, MouseEvent, MouseEventKind, Size, Static, Tooltip};

pub const CSSES: [&str; 6] = [
    "Probe { width: 6; height: 2; } #status { height: 1; background: #102030; } :focus { background: #404000; } :hover { color: #ff00ff; } .on { display: none; }",
    "Screen { layout: horizontal; } Container { width: 1fr; height: auto; } Probe { width: 4; height: 3; } #status { dock: bottom; height: 1; } Button:hover { background: red; } .on { background: #123456 60%; border: solid green; }",
    "Screen { layout: grid; grid-size: 2; } Probe:focus { background: #00ff00; } .on { visibility: hidden; } #status { width: 100%; } Switch:focus { border: round white; } .-narrow Button { background: blue; }",
    "Container, Vertical, Horizontal, Hub { border: round #888888; height: 8; } .on { border: heavy red; color: #00ffff; } .on Static { text-style: bold; } #status { dock: top; height: 2; }",
    "Screen { background: transparent; } * { margin: 1; } .on { margin: 0; padding: 1; } VerticalScroll, ScrollableContainer { height: 5; } #status { height: auto; } Input:focus { background: #222266; }",
    "Screen { overflow-y: scroll; } Static { height: 3; } #status { layer: top; position: absolute; offset: 2 1; width: 20; height: 1; background: #333333; } .on { layer: top; opacity: 50%; } Probe { height: 4; width: 50%; }",
];

#[derive(Clone)]
pub struct Spec { pub seed: u64, pub trees: Vec<N>, pub nodes: u32, pub post: bool, pub start: usize }
impl Spec {
    pub fn new(seed: u64) -> Spec {
        let mut r = Rng::new(seed);
        let post = r.bool();
        let mut nodes = 0;
        let trees = (0..3).map(|_| {
            let o = Opts { leaves: &[K::Static, K::Label, K::Button, K::Button, K::Switch, K::Switch, K::Input, K::OptionList, K::Ruler, K::Probe, K::Probe], boxes: &[K::Container, K::Vertical, K::Horizontal, K::Grid, K::ItemGrid, K::Scrollable, K::VScroll, K::HScroll, K::Center, K::Middle, K::Hub, K::Hub], depth: 1 + r.below(3), fan: 1 + r.below(4), wide: false };
            let mut next = 1;
            let mut n = gen_tree(&mut r, &o, &mut next, o.depth);
            crate::props::p19_mouse::ids(&mut n);
            nodes = nodes.max(next);
            n
        }).collect();
        Spec { seed, trees, nodes, post, start: r.below(4) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Trap { None, Compose, Mount, Key, Message, Render, Recompose, Event, MountQuit }

pub struct TestApp<const S: usize> {
    pub spec: Spec, pub model: bool, pub log: Vec<String>, pub logh: u64, pub gen_: Cell<usize>, re: Cell<bool>, pub fi: usize, quit: bool, outstanding: u32, status: String, syncs: u64, size: (u16, u16), pub effects: Vec<&'static str>,
    pub trap: Trap, pub wait: bool,
}
impl<const S: usize> TestApp<S> {
    pub fn new(spec: Spec, model: bool) -> Self {
        let fi = spec.start;
        TestApp { spec, model, log: vec![], logh: 0, gen_: Cell::new(0), re: Cell::new(false), fi, quit: false, outstanding: 0, status: "start".into(), syncs: 0, size: (0, 0), effects: vec![], trap: Trap::None, wait: true }
    }
    fn note(&mut self, s: String) { self.logh = hash(&(self.logh, &s)); self.log.push(s); }
    fn effect(&mut self, what: &str, ctx: &mut EventContext<Msg>) {
        if self.trap != Trap::None { return; }
        let h = hash(&(self.spec.seed, self.log.len(), what));
        let n = self.spec.nodes.max(2);
        let id = format!("w{}", 1 + (h >> 8) % (n as u64 - 1));
        let e = match h % 14 {
            0..=2 => { self.status = format!("s{} {what}", self.log.len()); let t = self.status.clone(); ctx.query_one_as::<Static<Msg>, _, _>("#status", |s| s.update(t)); "status" }
            3 | 4 => { ctx.with_widget_by_id(&id, |w| if w.has_class("on") { w.remove_class("on") } else { w.add_class("on") }); "class" }
            5 => { ctx.with_widget_by_id(&id, |w| { let d = w.is_disabled(); w.set_disabled(!d) }); "disable" }
            6 => { ctx.focus_by_id(&id); "focus id" }
            7 if self.spec.post && self.outstanding == 0 => { let k = 1 + (h >> 20) as u32 % 3; for i in 0..k { ctx.post(Msg::Act(1000 + i)); } self.outstanding = k; "post" }
            8 if self.spec.post && self.outstanding == 0 => {
                self.outstanding = 1;
                if self.model { ctx.post(Msg::Act(1010)) } else { ctx.set_timer(Duration::from_millis(1 + (h >> 20) % 30), Msg::Act(1010)) }
                "timer"
            }
            9 => { self.gen_.set(self.gen_.get() + 1); self.re.set(true); "recompose" }
            10 => { self.fi = ((h >> 16) % 5) as usize; "focus index" }
            11 => { let i = (h >> 16) as usize % 6; ctx.set_focus_index(i); "set focus" }
            12 => { ctx.query("Button").add_class("on"); "query" }
            _ => "none",
        };
        self.effects.push(e);
    }
    fn sync(&mut self) {
        if self.model { return; }
        self.syncs += 1;
        for e in probe::take() { if let Ev::Resize(_, w, h) = e { self.size = (w, h); } }
        let mut o = std::io::stdout();
        let _ = write!(o, "\x1b]sync{}\x07", self.syncs);
        let _ = o.flush();
        say(&format!("SYNC {} {} {} {} {}", self.syncs, self.log.len(), self.logh, self.size.0, self.size.1));
        if self.wait { ack(); }
    }
}
pub fn say(s: &str) { let b = format!("{s}\n"); unsafe { libc::write(4, b.as_ptr() as *const _, b.len()); } }
fn ack() { let mut b = [0u8; 1]; unsafe { libc::read(3, b.as_mut_ptr() as *mut _, 1); } }

impl<const S: usize> App for TestApp<S> {
    type Message = Msg;
    const CSS: &'static str = if S == 9 { "Screen { color: red; } { nonsense " } else { CSSES[S % 6] };
    const ENABLE_COMMAND_PALETTE: bool = S % 2 == 0;
    fn compose(&self) -> Vec<W> {
        self.re.set(false);
        if self.trap == Trap::Compose || (self.trap == Trap::Recompose && self.gen_.get() > 0) { panic!("trap"); }
        let n = &self.spec.trees[self.gen_.get() % self.spec.trees.len()];
        let mut v: Vec<W> = vec![build(n), Box::new(Static::<Msg>::new(self.status.clone()).with_markup(false).with_id("status"))];
        let mut p = crate::probe::Probe::new(0, 3, 1);
        p.focusable = false;
        v.push(Box::new(p));
        if self.trap == Trap::Render && self.gen_.get() > 0 { v.insert(0, Box::new(Mine { render: true })); }
        if self.trap == Trap::Event { v.insert(0, Box::new(Mine { render: false })); }
        v
    }
    fn on_mount(&mut self, ctx: &mut MountContext<Msg>) {
        if self.trap == Trap::Mount { panic!("trap"); }
        if self.trap == Trap::MountQuit { self.request_quit(); }
        let t = format!("mounted {}", self.spec.seed % 1000);
        self.status = t.clone();
        ctx.query_one_as::<Static<Msg>, _, _>("#status", |s| s.update(t));
        if self.spec.post || self.trap == Trap::Message { ctx.post(Msg::Act(1001)); self.outstanding = 1; }
    }
    fn handle_message(&mut self, e: MessageEnvelope<Msg>, ctx: &mut EventContext<Msg>) {
        let m = format!("{:?}", e.message);
        if m.contains("F(12)") || m.contains("F(11)") { return; }
        if let Msg::Act(k) = e.message { if k >= 1000 { self.outstanding = self.outstanding.saturating_sub(1); } }
        self.note(format!("M {m} from {:?} {}", e.sender_id, e.sender_type));
        if self.trap == Trap::Message { panic!("trap"); }
        self.effect(&m, ctx);
    }
    fn on_key(&mut self, key: KeyCode, ctx: &mut EventContext<Msg>) {
        if key == KeyCode::F(12) { self.sync(); return; }
        if key == KeyCode::F(11) { return; }
        let k = format!("{key:?}");
        self.note(format!("K {k}"));
        match key {
            KeyCode::Char('Q') => { self.quit = true; return; }
            KeyCode::Char('P') => { self.quit_by_post(ctx); return; }
            KeyCode::Char('A') => { self.dispatch_action("app.quit", ctx); return; }
            KeyCode::Char('R') => { self.gen_.set(self.gen_.get() + 1); self.re.set(true); return; }
            _ => {}
        }
        if self.trap == Trap::Key { panic!("trap"); }
        if matches!(key, KeyCode::Char(_)) { self.effect(&k, ctx); }
    }
    fn should_quit(&self) -> bool { self.quit }
    fn request_quit(&mut self) { self.quit = true }
    fn reset_quit(&mut self) { self.quit = false }
    fn focus_index(&self) -> usize { self.fi }
    fn needs_recompose(&self) -> bool { self.re.get() }
    fn tooltip_delay(&self) -> Duration { Duration::from_secs(3600) }
    fn horizontal_breakpoints(&self) -> &'static [(u16, &'static str)] { &[(0, "-narrow"), (50, "-wide")] }
}
impl<const S: usize> TestApp<S> {
    fn quit_by_post(&mut self, _ctx: &mut EventContext<Msg>) { self.quit = true; }
}

/// panics when drawn, or when it gets a key
struct Mine { render: bool }
impl textual::Widget<Msg> for Mine {
    fn render(&self, _: &mut Canvas, _: Region) { if self.render { panic!("trap"); } }
    fn desired_size(&self) -> Size { Size::new(1, 1) }
    fn is_focusable(&self) -> bool { !self.render }
    fn on_event(&mut self, k: KeyCode) -> Option<Msg> { if !matches!(k, KeyCode::F(_)) { panic!("trap") } None }
}

/// an application that leaves quitting to the defaults
struct Plain { keys: usize, quit: bool }
impl App for Plain {
    type Message = Msg;
    fn compose(&self) -> Vec<W> { vec![Box::new(Static::<Msg>::new("plain"))] }
    fn on_mount(&mut self, _: &mut MountContext<Msg>) { say("MOUNTED"); if self.quit { self.request_quit(); } }
    fn handle_message(&mut self, _: MessageEnvelope<Msg>, _: &mut EventContext<Msg>) { self.keys += 1; }
}

fn rt(multi: bool) -> tokio::runtime::Runtime {
    if multi { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap() } else { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
}
macro_rules! with_k { ($k:expr, $f:ident ( $($a:expr),* )) => { match $k { 0 => $f::<0>($($a),*), 1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*), _ => $f::<5>($($a),*) } } }

fn run_plain<const S: usize>(spec: Spec) -> i32 {
    let mut a = TestApp::<S>::new(spec, false);
    match a.run() { Ok(()) => say("DONE ok"), Err(e) => say(&format!("DONE err {e:?}")) }
    0
}
pub const EXITS: &[&str] = &["quit", "post", "action", "trap-compose", "trap-mount", "trap-key", "trap-message", "trap-render", "trap-recompose", "trap-event", "css", "dropped", "in-multi", "in-current", "default-q", "default-esc", "twice", "async-current", "mount-quit", "default-mount"];
fn run_exit<const S: usize>(kind: &str, spec: Spec) -> i32 {
    let mut a = TestApp::<S>::new(spec.clone(), false);
    a.trap = match kind { "trap-compose" => Trap::Compose, "trap-mount" => Trap::Mount, "trap-key" => Trap::Key, "trap-message" => Trap::Message, "trap-render" => Trap::Render, "trap-recompose" => Trap::Recompose, "trap-event" => Trap::Event, "mount-quit" => Trap::MountQuit, _ => Trap::None };
    if a.trap == Trap::Event { a.fi = 0; }
    a.wait = kind != "dropped";
    let done = |r: std::thread::Result<Result<(), String>>| {
        let s = match r { Err(_) => "panic".into(), Ok(Ok(())) => "ok".to_string(), Ok(Err(e)) => format!("err {e}") };
        let mut o = std::io::stdout();
        let _ = write!(o, "\x1b]sync0\x07");
        let _ = o.flush();
        say(&format!("DONE {s}"));
        ack();
    };
    let e = |r: Result<(), textual::error::TextualError>| r.map_err(|e| format!("{e:?}"));
    let cu = |f: &mut dyn FnMut() -> Result<(), String>| done(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
    match kind {
        "css" => { let mut b = TestApp::<9>::new(spec, false); cu(&mut || e(b.run())) }
        "dropped" => cu(&mut || rt(S % 2 == 0).block_on(async { tokio::select! { r = a.run_async() => e(r), _ = async { let _ = tokio::task::spawn_blocking(ack).await; } => Err("dropped".into()) } })),
        "in-multi" => cu(&mut || { let r = rt(true); r.block_on(async { e(a.run()) }) }),
        "in-current" => cu(&mut || { let r = rt(false); r.block_on(async { e(a.run()) }) }),
        "async-current" => cu(&mut || { let r = rt(false); r.block_on(async { e(a.run_async().await) }) }),
        "default-q" | "default-esc" | "default-mount" => { for _ in 0..2 { let mut p = Plain { keys: 0, quit: kind == "default-mount" }; cu(&mut || e(p.run())) } }
        "twice" => { cu(&mut || e(a.run())); a.quit = true; cu(&mut || e(a.run())) }
        _ => cu(&mut || e(a.run())),
    }
    0
}
pub fn child(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let spec = Spec::new(a[2].parse().unwrap());
    let k: usize = a[1].parse().unwrap();
    match a[0].as_str() { "run" => with_k!(k, run_plain(spec)), kind => with_k!(k, run_exit(kind, spec)) }
}

/// The application driven by hand: what the screen must show after each event.
pub struct Mirror<const S: usize> { pub app: TestApp<S>, tree: WidgetTree<Msg>, css: String, theme: tcss::types::Theme, tx: tokio::sync::mpsc::UnboundedSender<MessageEnvelope<Msg>>, rx: tokio::sync::mpsc::UnboundedReceiver<MessageEnvelope<Msg>>, last_fi: usize, pub cols: u16, pub rows: u16, pub canvas: Canvas }
pub trait Drive { fn key(&mut self, k: KeyCode); fn mouse(&mut self, e: MouseEvent); fn resize(&mut self, w: u16, h: u16); fn frame(&self) -> &Canvas; fn log(&self) -> (&[String], u64); fn effects(&self) -> &[&'static str]; }
fn tree_of<const S: usize>(app: &TestApp<S>) -> WidgetTree<Msg> {
    let screen = Screen::new(app.compose()).with_horizontal_breakpoints(app.horizontal_breakpoints()).with_vertical_breakpoints(app.vertical_breakpoints());
    let mut v: Vec<W> = vec![Box::new(screen), Box::new(Tooltip::new())];
    if <TestApp<S> as App>::ENABLE_COMMAND_PALETTE { v.push(Box::new(CommandPalette::new())); }
    WidgetTree::new(Box::new(textual::widget::app_widget::AppWidget::new(v)))
}
impl<const S: usize> Mirror<S> {
    pub fn new(spec: Spec, cols: u16, rows: u16) -> Mirror<S> {
        let app = TestApp::<S>::new(spec, true);
        let tree = tree_of(&app);
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let last_fi = app.fi;
        let mut m = Mirror { app, tree, css: String::new(), theme: crate::props::p19_mouse::theme(), tx, rx, last_fi, cols, rows, canvas: Canvas::new(cols, rows) };
        m.fresh();
        let (tx, t) = (m.tx.clone(), &mut m.tree);
        m.app.on_mount(&mut MountContext::new(AppContext::new(tx), t));
        m.settle();
        m.drain();
        m
    }
    fn fresh(&mut self) {
        self.tree.root_mut().on_resize(Size::new(self.cols, self.rows));
        self.css = format!("{}\n{}", <Screen<Msg> as textual::Widget<Msg>>::base_widget_css(), textual::testing::build_combined_css(self.tree.root_mut(), <TestApp<S> as App>::CSS));
        self.tree.root_mut().clear_focus();
        self.tree.root_mut().focus_nth(self.app.fi);
        self.tree.update_focus(self.app.fi);
        self.last_fi = self.app.fi;
    }
    fn settle(&mut self) {
        if self.app.needs_recompose() { self.tree = tree_of(&self.app); self.fresh(); }
        if self.app.fi != self.last_fi {
            self.tree.root_mut().clear_focus();
            self.tree.root_mut().focus_nth(self.app.fi);
            self.tree.update_focus(self.app.fi);
            self.last_fi = self.app.fi;
        }
        self.draw();
        if !self.tree.is_focus_valid() { if self.tree.set_focus_index(0) { self.last_fi = self.app.fi; } self.draw(); }
    }
    fn draw(&mut self) {
        let sheet = tcss::parser::parse_stylesheet(&self.css).expect("harness: css");
        resolve_styles(self.tree.root_mut(), &sheet, &self.theme, &mut VecDeque::new());
        self.canvas = Canvas::new(self.cols, self.rows);
        self.tree.root().render(&mut self.canvas, Region::from_u16(0, 0, self.cols, self.rows));
    }
    fn drain(&mut self) {
        while let Ok(e) = self.rx.try_recv() {
            let mut c = EventContext::new(AppContext::new(self.tx.clone()), &mut self.tree);
            self.app.handle_message(e, &mut c);
            self.settle();
        }
    }
    fn actions(&mut self) {
        for a in collect_pending_actions_mut(self.tree.root_mut()) { let mut c = EventContext::new(AppContext::new(self.tx.clone()), &mut self.tree); self.app.dispatch_action(&a, &mut c); }
    }
}
impl<const S: usize> Drive for Mirror<S> {
    fn key(&mut self, k: KeyCode) {
        match k { KeyCode::Tab => { self.tree.focus_next(); } KeyCode::BackTab => { self.tree.focus_previous(); } _ => {} }
        if let Some(m) = self.tree.dispatch_key(k) {
            let s = self.tree.focused_sender_info();
            let e = self.tree.bubble_message(MessageEnvelope::new(m, s.id.as_deref(), s.type_name));
            let mut c = EventContext::new(AppContext::new(self.tx.clone()), &mut self.tree);
            self.app.handle_message(e, &mut c);
        }
        let mut c = EventContext::new(AppContext::new(self.tx.clone()), &mut self.tree);
        self.app.on_key(k, &mut c);
        self.actions();
        self.settle();
        self.drain();
    }
    fn mouse(&mut self, e: MouseEvent) {
        if e.kind == MouseEventKind::Moved { clear_all_hover(self.tree.root_mut()); }
        if let Some((m, s)) = self.tree.root_mut().on_mouse_with_sender(e, Region::from_u16(0, 0, self.cols, self.rows)) {
            let mut c = EventContext::new(AppContext::new(self.tx.clone()), &mut self.tree);
            self.app.handle_message(MessageEnvelope::new(m, s.id.as_deref(), s.type_name), &mut c);
        }
        self.actions();
        self.settle();
        self.drain();
    }
    fn resize(&mut self, w: u16, h: u16) {
        (self.cols, self.rows) = (w, h);
        self.tree.root_mut().on_resize(Size::new(w, h));
        self.settle();
        self.drain();
    }
    fn frame(&self) -> &Canvas { &self.canvas }
    fn log(&self) -> (&[String], u64) { (&self.app.log, self.app.logh) }
    fn effects(&self) -> &[&'static str] { &self.app.effects }
}
fn boxed<const S: usize>(s: Spec, w: u16, h: u16) -> Box<dyn Drive> { Box::new(Mirror::<S>::new(s, w, h)) }
pub fn mirror(k: usize, s: Spec, w: u16, h: u16) -> Box<dyn Drive> { with_k!(k, boxed(s, w, h)) }
