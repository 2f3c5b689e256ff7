//! P23: a running application's screen shows its current state. P24: the terminal is given back as it was.
use super::p19_mouse::cellv;
use crate::app::{self, Spec};
use crate::core::*;
use crate::pty::{Pty, Tty};
use crate::{ensure, ensure_eq};
use std::time::{Duration, Instant};
use textual::{KeyCode, KeyModifiers, MouseEvent, MouseEventKind};
use crossterm::event::MouseButton;

pub fn prop() -> Prop {
    Prop { id: "P23", quick: 1_800, thorough: 60_000, run: run23, workers: 8,
        rule: "each case runs one generated application (6 stylesheets x random trees, with the command palette enabled or not) as its own process on a pseudo-terminal and sends it 4-40 keys, mouse events and window resizes; its handlers change text, classes, enabled state, focus, post messages, start timers and ask for recomposition; at every synchronisation point the messages it handled and the screen its terminal output draws are compared with the same application driven step by step and fully restyled and redrawn; distinct = distinct (application, events)",
        assumptions: &["events are written one at a time, so that the terminal reader sees whole sequences", "a case that does not fail in two of three runs is not reported"] }
}
pub fn prop24() -> Prop {
    Prop { id: "P24", quick: 1_200, thorough: 40_000, run: run24, workers: 8,
        rule: "each case runs one generated application as its own process on a pseudo-terminal and ends it in one of 20 ways (quit by key, post or action; panic in compose, mount, key handler, message handler, widget event, draw or recomposition; invalid stylesheet; future dropped; run inside a multi-thread and inside a current-thread runtime; default quit keys; quit while mounting; run twice) after 0-6 events; when the call returns the terminal's line settings and private modes must be those from before, nothing may have been printed after leaving the alternate screen, and the result must be the documented one; distinct = distinct (way, application, events)",
        assumptions: &["line settings are compared as the kernel reports them for the pseudo-terminal"] }
}

const LIMIT: Duration = Duration::from_secs(25);

#[derive(Clone, Debug)]
enum E { Key(KeyCode, Vec<u8>), Mouse(MouseEvent, Vec<u8>), Resize(u16, u16) }
fn key(r: &mut Rng) -> E {
    let (k, b): (KeyCode, Vec<u8>) = match r.below(26) {
        0..=8 => { let c = *r.pick(&['a', 'b', 'e', 'k', 'x', 'z', '1', ' ', 'é', '漢', '-', 'W']); (KeyCode::Char(c), c.to_string().into_bytes()) }
        9..=13 => (KeyCode::Tab, b"\t".to_vec()),
        14 | 15 => (KeyCode::BackTab, b"\x1b[Z".to_vec()),
        16 | 17 => (KeyCode::Enter, b"\r".to_vec()),
        18 => (KeyCode::Down, b"\x1b[B".to_vec()),
        19 => (KeyCode::Up, b"\x1b[A".to_vec()),
        20 => (KeyCode::Left, b"\x1b[D".to_vec()),
        21 => (KeyCode::Backspace, b"\x7f".to_vec()),
        22 => (KeyCode::Home, b"\x1b[H".to_vec()),
        23 => (KeyCode::PageDown, b"\x1b[6~".to_vec()),
        24 => (KeyCode::Delete, b"\x1b[3~".to_vec()),
        _ => (KeyCode::F(3), b"\x1bOR".to_vec()),
    };
    E::Key(k, b)
}
fn mouse(r: &mut Rng, w: u16, h: u16, at: &mut (u16, u16)) -> E {
    if r.chance(2, 3) { *at = (r.below(w as usize) as u16, r.below(h as usize) as u16); }
    let (x, y) = *at;
    let (kind, cb, end) = match r.below(7) {
        0 | 1 => (MouseEventKind::Moved, 35, 'M'),
        2 | 3 => (MouseEventKind::Down(MouseButton::Left), 0, 'M'),
        4 => (MouseEventKind::Up(MouseButton::Left), 0, 'm'),
        5 => (MouseEventKind::Drag(MouseButton::Left), 32, 'M'),
        _ => if r.bool() { (MouseEventKind::ScrollDown, 65, 'M') } else { (MouseEventKind::ScrollUp, 64, 'M') },
    };
    E::Mouse(MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::empty() }, format!("\x1b[<{cb};{};{}{end}", x + 1, y + 1).into_bytes())
}

/// a line of the child. The terminal library may leave input unread that arrives together with a window size
/// signal or a wake-up, until more arrives: an ignored key pokes it
fn line(p: &mut Pty) -> Option<String> {
    for _ in 0..LIMIT.as_secs() * 4 { let l = p.wait_line(Duration::from_millis(250)); if l.is_some() || p.ended() { return l; } p.send(b"\x1b[23~"); }
    None
}
/// one line of the child, with the terminal fed up to it
struct Sync { logs: usize, hash: u64, size: (u16, u16) }
fn sync(p: &mut Pty, tty: &mut Tty, what: &str, wait: bool) -> Result<Sync, String> {
    p.send(b"\x1b[24~");
    let Some(l) = line(p) else { return Err(format!("the application stopped answering ({what})")) };
    let f: Vec<&str> = l.split(' ').collect();
    if f[0] != "SYNC" { return Err(format!("the application ended: {l} ({what})")); }
    let n: u64 = f[1].parse().unwrap();
    let Some(o) = p.take_output(n, LIMIT) else { return Err("harness: no marker".into()) };
    tty.feed(&o).map_err(|e| format!("{e} ({what}) {}", if std::env::var("DBG").is_ok() { format!("{:?}", String::from_utf8_lossy(&o)) } else { String::new() }))?;
    if wait { p.ack(); }
    Ok(Sync { logs: f[2].parse().unwrap(), hash: f[3].parse().unwrap(), size: (f[4].parse().unwrap(), f[5].parse().unwrap()) })
}

struct Out { repeats: u64, syncs: u64, retries: u64, effects: Vec<&'static str>, logs: usize }
fn attempt(seed: u64, k: usize, w: u16, h: u16, events: &[(E, bool)], trace: &mut Vec<String>) -> Result<Out, String> {
    let spec = Spec::new(seed);
    let mut o = Out { repeats: 0, syncs: 0, retries: 0, effects: vec![], logs: 0 };
    let mut m = app::mirror(k, spec, w, h);
    let mut p = Pty::spawn(&["run".into(), k.to_string(), seed.to_string()], w, h)?;
    p.started(LIMIT);
    let mut tty = Tty::new(w as usize, h as usize);
    let mut size = (w, h);
    let mut since: Vec<String> = vec!["start".into()];
    let mut pending = true;
    for i in 0..=events.len() {
        if pending {
            let t = Instant::now();
            let what = since.join("; ");
            loop {
                let s = sync(&mut p, &mut tty, &what, true)?;
                let (log, lh) = m.log();
                if (s.logs < log.len() || s.size != size) && t.elapsed() < LIMIT { o.retries += 1; std::thread::sleep(Duration::from_millis(1)); continue; }
                ensure!(s.size == size, "after resizing to {size:?} the widgets were told {:?} ({what})", s.size);
                ensure!(s.logs == log.len() && s.hash == lh, "the application handled {} messages and keys, {} expected, ending {:?} ({what})", s.logs, log.len(), &log[log.len().saturating_sub(4)..]);
                tty.term.lenient = false;
                tty.term.diff(&cellv(m.frame())).map_err(|e| format!("{e} after {what} (handlers did {:?})", &m.effects()[m.effects().len().saturating_sub(4)..]))?;
                o.syncs += 1;
                break;
            }
            since.clear();
        }
        if i == events.len() { break; }
        let (e, sync_after) = &events[i];
        trace.push(format!("{e:?} sync={sync_after}"));
        since.push(match e { E::Key(k, _) => format!("{k:?}"), E::Mouse(v, _) => format!("{:?} {},{}", v.kind, v.column, v.row), E::Resize(w, h) => format!("resize {w}x{h}") });
        match e {
            E::Key(k, b) => { p.send(b); m.key(*k); }
            E::Mouse(v, b) => { p.send(b); m.mouse(*v); }
            E::Resize(w, h) => {
                size = (*w, *h);
                let old = std::mem::replace(&mut tty, Tty::new(*w as usize, *h as usize));
                tty.modes = old.modes;
                tty.term.lenient = true;
                // a whole new screen has at least a byte per cell
                let had = p.out.len() + *w as usize * *h as usize;
                p.resize(*w, *h);
                // the terminal library loses a signal that arrives together with input: repeat it
                for _ in 0..20 {
                    let t = Instant::now();
                    while p.out.len() < had && t.elapsed() < Duration::from_millis(150) { p.pump(10); }
                    if p.out.len() >= had { break; }
                    o.repeats += 1;
                    p.winch();
                }
                m.resize(*w, *h);
            }
        }
        pending = *sync_after;
    }
    o.logs = m.log().0.len();
    o.effects = m.effects().to_vec();
    Ok(o)
}

fn run23(cx: &mut Cx) -> R {
    let seed = cx.r.u64() >> 1;
    let k = cx.r.below(6);
    let (w, h) = (20 + cx.r.below(60) as u16, 6 + cx.r.below(24) as u16);
    let spec = Spec::new(seed);
    if spec.nodes > 40 { return Ok(()); }
    let mut events = vec![];
    let mut at = (0, 0);
    let mut cur = (w, h);
    let keys = cx.r.below(4);
    for _ in 0..4 + cx.r.below(if cx.thorough { 60 } else { 36 }) {
        let e = match cx.r.below(16) { 0 => E::Resize(10 + cx.r.below(70) as u16, 3 + cx.r.below(28) as u16), k if k < 12 - keys => key(&mut cx.r), _ => mouse(&mut cx.r, cur.0, cur.1, &mut at) };
        let rs = matches!(e, E::Resize(..));
        if let E::Resize(a, b) = e { if (a, b) == cur { continue; } cur = (a, b); if let Some(l) = events.last_mut() { let l: &mut (E, bool) = l; l.1 = true; } }
        events.push((e, rs || spec.post || cx.r.bool()));
    }
    if let Some(l) = events.last_mut() { l.1 = true; }
    cx.distinct(&(seed, k, format!("{events:?}")));
    let mut sh = String::new();
    for t in &spec.trees { crate::wtree::show(t, 0, &mut sh); sh.push('\n'); }
    cx.t(format!("application {k} seed {seed} {w}x{h}\n{sh}"));
    let mut fails = vec![];
    for _ in 0..3 {
        let mut tr = vec![];
        match attempt(seed, k, w, h, &events, &mut tr) {
            Ok(o) => {
                if fails.len() < 2 { if !fails.is_empty() { cx.count("cases that failed once and were repeated"); if fails.len() == 1 && cx.trace.len() > 99 { break; } }
                }
                if fails.is_empty() {
                    cx.add("resize signals repeated", o.repeats); cx.add("frames compared", o.syncs); cx.add("waits for a message or resize", o.retries); cx.add("messages and keys handled", o.logs as u64); cx.add("events sent", events.len() as u64);
                    for e in o.effects { cx.count(&format!("handler: {e}")); }
                    return Ok(());
                }
            }
            Err(e) => { if e.starts_with("harness:") { return Err(e); } if std::env::var("DBG").is_ok() { use std::io::Write; let _ = writeln!(std::fs::OpenOptions::new().append(true).create(true).open(std::env::var("DBG").unwrap()).unwrap(), "case {} fail: {e}", cx.case); } fails.push((e, tr)); if fails.len() == 2 { break; } }
        }
    }
    if fails.len() < 2 { return Ok(()); }
    let (e, tr) = fails.pop().unwrap();
    for l in tr { cx.t(l); }
    Err(e)
}

const RESTING: &[u32] = &[25];
fn attempt24(seed: u64, k: usize, kind: &str, pre: &[Vec<u8>], trace: &mut Vec<String>, seen: &mut Vec<String>) -> R {
    let (w, h) = (40, 12);
    let mut p = Pty::spawn(&[kind.into(), k.to_string(), seed.to_string()], w, h)?;
    let mut tty = Tty::new(w as usize, h as usize);
    let before = p.termios0.clone();
    let rounds = if kind.starts_with("default") || kind == "twice" { 2 } else { 1 };
    for round in 0..rounds {
        let instant = matches!(kind, "trap-compose" | "trap-mount" | "trap-message" | "css" | "in-current" | "mount-quit");
        let plain = kind.starts_with("default");
        if plain {
            let l = p.wait_line(LIMIT).unwrap_or_default();
            ensure_eq!(l, "MOUNTED", "the application did not start ({kind}, run {round})");
            if kind != "default-mount" { for b in pre { p.send(b); } }
        } else if !instant {
            p.started(LIMIT);
            sync(&mut p, &mut tty, kind, kind != "dropped")?;
            ensure!([1049, 1006, 1000].iter().all(|m| tty.modes.contains(m)) && !tty.modes.contains(&25), "terminal modes while running: {:?} ({kind})", tty.modes);
            ensure!(p.termios_now() != before, "the line settings while running are the initial ones ({kind})");
            if !kind.starts_with("trap") { for b in pre { p.send(b); sync(&mut p, &mut tty, kind, kind != "dropped")?; } }
        }
        let (last, expect): (&[u8], &str) = match kind {
            "quit" | "twice" | "in-multi" | "async-current" => (b"Q", "ok"),
            "post" => (b"P", "ok"),
            "action" => (b"A", "ok"),
            "trap-key" | "trap-event" => (b"x", "panic"),
            "trap-render" | "trap-recompose" => (b"R", "panic"),
            "css" => (b"", "err InvalidCss"),
            "in-current" => (b"", "err RuntimeInit"),
            "dropped" => (b"", "err \"dropped\""),
            "mount-quit" | "default-mount" => (b"", "ok"),
            "default-q" => (b"q", "ok"),
            "default-esc" => (b"\x1b", "ok"),
            _ => (b"", "panic"),
        };
        let expect = if kind == "dropped" { "err dropped" } else { expect };
        trace.push(format!("{kind} run {round}: {last:?}"));
        if kind == "dropped" { p.ack(); } else if !last.is_empty() { p.send(last); }
        let Some(l) = line(&mut p) else { return Err(format!("the application did not end ({kind}, run {round})")) };
        ensure!(l.starts_with(&format!("DONE {expect}")), "the call ended with {l:?}, expected {expect:?} ({kind}, run {round})");
        let Some(o) = p.take_output(0, LIMIT) else { return Err("harness: no marker".into()) };
        let tail = o.windows(8).rposition(|x| x == b"\x1b[?1049l").map(|i| o[i + 8..].to_vec());
        tty.feed(&o)?;
        let modes: Vec<u32> = tty.modes.iter().copied().collect();
        ensure_eq!(modes, RESTING.to_vec(), "private terminal modes left set ({kind}, run {round})");
        ensure_eq!(String::from_utf8(p.termios_now()).unwrap(), String::from_utf8(before.clone()).unwrap(), "line settings left behind ({kind}, run {round})");
        if kind == "in-current" { ensure!(o.is_empty(), "wrote {o:?} to the terminal without running ({kind})"); }
        else {
            let Some(t) = tail else { return Err(format!("the alternate screen was never left ({kind})")) };
            // (a poke that came too late is echoed by the kernel)
            let txt = strip_csi(&t).replace("^[[23~", "");
            ensure!(txt.is_empty(), "printed {txt:?} after leaving the alternate screen ({kind})");
        }
        seen.push(format!("{kind}: {} modes used", tty.seen.len()));
        p.ack();
    }
    let code = p.wait_exit(LIMIT);
    ensure_eq!(code, Some(0), "exit of the process ({kind})");
    Ok(())
}
fn strip_csi(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).into_owned();
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' { if it.peek() == Some(&'[') { it.next(); for d in it.by_ref() { if ('\x40'..='\x7e').contains(&d) { break; } } } continue; }
        out.push(c);
    }
    out
}
fn run24(cx: &mut Cx) -> R {
    let kind = app::EXITS[cx.case as usize % app::EXITS.len()];
    let k = cx.r.below(6);
    // a message must come from the pointer for the message trap
    let seed = cx.r.u64() >> 1;
    let spec = Spec::new(seed);
    if spec.nodes > 40 { return Ok(()); }
    let n = cx.r.below(7);
    let pre: Vec<Vec<u8>> = (0..n).map(|_| match kind { "default-q" | "default-esc" | "default-mount" => b"x".to_vec(), _ => match key(&mut cx.r) { E::Key(_, b) if b != b"W" => b, _ => b"\t".to_vec() } }).collect();
    cx.distinct(&(kind, seed, k, &pre));
    cx.t(format!("{kind} application {k} seed {seed} after {pre:?}"));
    let mut fails = vec![];
    for _ in 0..3 {
        let (mut tr, mut seen) = (vec![], vec![]);
        match attempt24(seed, k, kind, &pre, &mut tr, &mut seen) {
            Ok(()) => if fails.is_empty() { for s in seen { cx.count(&s); } return Ok(()); },
            Err(e) => { if e.starts_with("harness:") { return Err(e); } for l in tr { cx.t(l); } if std::env::var("DBG").is_ok() { use std::io::Write; let _ = writeln!(std::fs::OpenOptions::new().append(true).create(true).open(std::env::var("DBG").unwrap()).unwrap(), "case {} fail: {e}", cx.case); } fails.push(e); if fails.len() == 2 { break; } }
        }
    }
    if fails.len() < 2 { cx.count("cases that failed once and were repeated"); return Ok(()); }
    Err(fails.pop().unwrap())
}
