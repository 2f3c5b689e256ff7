//! P25: posted messages, timers and intervals.
use crate::core::*;
use crate::{ensure, ensure_eq};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;
use textual::context::{AppContext, EventContext, IntervalHandle, MountContext};
use textual::message::MessageEnvelope;
use textual::tree::WidgetTree;
use textual::Static;

pub fn prop() -> Prop {
    Prop { id: "P25", quick: 30_000, thorough: 1_200_000, run, workers: 8,
        rule: "each case is a history of 5-60 steps on a message channel: post, start timers (0-400 ms) and intervals (1-90 ms) through the application, mount and event contexts with various sender names, cancel or drop interval handles, let virtual time pass in single milliseconds or in jumps, drop the receiver; every message that arrives is checked against the schedule (who sent it, when it was due, how often); one case in 400 runs on a multi-thread runtime in real time instead; distinct = distinct histories",
        assumptions: &["virtual time is tokio's paused clock; a message may arrive up to one clock tick (1 ms) late", "on the multi-thread runtime one message already being sent when an interval is cancelled may still arrive"] }
}
type M = (u32, u64);
#[derive(Clone, Debug)]
enum Kind { Timer { due: u64, done: bool }, Every { start: u64, step: u64, sent: u64, cancelled: Option<u64> } }
struct S { kind: Kind, sender: (Option<String>, String), alive: Arc<()> }

fn run(cx: &mut Cx) -> R {
    if cx.case % 400 == 7 { return real(cx); }
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().map_err(|e| format!("harness: {e}"))?;
    rt.block_on(paused(cx))
}
async fn settle() { for _ in 0..12 { tokio::task::yield_now().await; } }

async fn paused(cx: &mut Cx<'_>) -> R {
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<MessageEnvelope<M>>();
    let mut tree: WidgetTree<M> = WidgetTree::new(Box::new(Static::<M>::new("x")));
    let base = tokio::time::Instant::now();
    let now = move || (tokio::time::Instant::now() - base).as_millis() as u64;
    let mut things: BTreeMap<u32, S> = BTreeMap::new();
    let mut handles: Vec<(u32, IntervalHandle)> = vec![];
    let mut next = 0u32;
    let mut h = 0u64;
    let mut dropped = false;
    for _ in 0..5 + cx.r.below(55) {
        let t = now();
        let info: (Option<String>, String) = match cx.r.below(3) { 0 => (None, "AppContext".into()), 1 => (Some(format!("id{}", cx.r.below(3))), "Button".into()), _ => (None, "Custom".into()) };
        let mut app = AppContext::new(tx.clone());
        if info.1 != "AppContext" { app = app.with_sender_info(info.0.as_deref(), &info.1); }
        ensure_eq!((app.sender_id().map(String::from), app.sender_type().to_string()), info.clone(), "sender named by the context");
        let ctx = cx.r.below(3);
        let op = cx.r.below(12);
        h = hash(&(h, op, ctx));
        match op {
            0 | 1 => {
                // posts arrive at once, in order
                let k = 1 + cx.r.below(4) as u64;
                for i in 0..k {
                    match ctx { 0 => app.post((u32::MAX, i)), 1 => MountContext::new(app.clone(), &mut tree).post((u32::MAX, i)), _ => EventContext::new(app.clone(), &mut tree).post((u32::MAX, i)) }
                }
                cx.t(format!("{t}: post {k} as {info:?}"));
                if dropped { continue; }
                // (several sources may fall due now: take what arrives, posts must be there, in order, first)
                for i in 0..k {
                    let Ok(e) = rx.try_recv() else { return Err(format!("posted message {i} of {k} did not arrive\n{}", cx.trace.join("\n"))) };
                    ensure_eq!((e.message, e.sender_id.as_deref().map(String::from), e.sender_type.clone()), ((u32::MAX, i), info.0.clone(), info.1.clone()), "posted message");
                    cx.count("posts delivered");
                }
            }
            2..=4 => {
                let d = match cx.r.below(4) { 0 => 0, 1 => cx.r.below(5) as u64, _ => cx.r.below(400) as u64 };
                let (id, alive) = (next, Arc::new(()));
                next += 1;
                let dur = Duration::from_millis(d);
                match ctx { 0 => app.set_timer(dur, (id, 0)), 1 => MountContext::new(app.clone(), &mut tree).set_timer(dur, (id, 0)), _ => EventContext::new(app.clone(), &mut tree).set_timer(dur, (id, 0)) }
                h = hash(&(h, d));
                cx.t(format!("{t}: timer {id} in {d} as {info:?}"));
                things.insert(id, S { kind: Kind::Timer { due: t + d, done: false }, sender: info, alive });
                settle().await;
            }
            5 | 6 => {
                let d = match cx.r.below(3) { 0 => 1, _ => 1 + cx.r.below(90) as u64 };
                let (id, alive) = (next, Arc::new(()));
                next += 1;
                let n = AtomicU64::new(0);
                let a = alive.clone();
                let f = move || { let _ = &a; (id, n.fetch_add(1, Ordering::Relaxed)) };
                let dur = Duration::from_millis(d);
                let hd = match ctx { 0 => app.set_interval(dur, f), 1 => MountContext::new(app.clone(), &mut tree).set_interval(dur, f), _ => EventContext::new(app.clone(), &mut tree).set_interval(dur, f) };
                h = hash(&(h, d));
                cx.t(format!("{t}: interval {id} every {d} as {info:?}"));
                things.insert(id, S { kind: Kind::Every { start: t, step: d, sent: 0, cancelled: None }, sender: info, alive });
                handles.push((id, hd));
                // sometimes cancelled before its task ever ran
                if cx.r.chance(5, 6) { settle().await; }
            }
            7 | 8 if !handles.is_empty() => {
                let i = cx.r.below(handles.len());
                let how = cx.r.below(3);
                h = hash(&(h, i, how));
                let (id, mut hd) = handles.swap_remove(i);
                match how { 0 => drop(hd), 1 => { hd.cancel(); hd.cancel(); std::mem::drop(hd) } _ => { hd.cancel(); handles.push((id, hd)); } }
                cx.t(format!("{t}: cancel {id} ({how})"));
                if let Some(S { kind: Kind::Every { cancelled, .. }, .. }) = things.get_mut(&id) { if cancelled.is_none() { *cancelled = Some(t); } }
                cx.count("intervals cancelled");
                // nothing that is sent from here on may come from it
                if cx.r.bool() { settle().await; }
                let mut late = 0;
                while let Ok(e) = rx.try_recv() { if e.message.0 == id { late += 1; } else { arrived(cx, &mut things, e, now(), 0)?; } }
                ensure_eq!(late, 0, "messages of interval {id} after it was cancelled\n{}", cx.trace.join("\n"));
            }
            9 if cx.r.chance(1, 6) => {
                if !dropped { rx.close(); while rx.try_recv().is_ok() {} dropped = true; cx.t(format!("{t}: receiver closed")); cx.count("receivers closed"); }
            }
            _ => {
                let d = match cx.r.below(4) { 0 => 0, 1 => 1, 2 => cx.r.below(20) as u64, _ => cx.r.below(250) as u64 };
                let jump = cx.r.chance(1, 4);
                h = hash(&(h, d, jump));
                cx.t(format!("{t}: {} {d}", if jump { "jump" } else { "wait" }));
                if jump {
                    tokio::time::advance(Duration::from_millis(d)).await;
                    settle().await;
                    for _ in 0..if d > 0 { 1 } else { 0 } { tokio::time::advance(Duration::from_millis(1)).await; settle().await; }
                    while let Ok(e) = rx.try_recv() { arrived(cx, &mut things, e, now(), d + 1)?; }
                } else {
                    for _ in 0..d { tokio::time::advance(Duration::from_millis(1)).await; settle().await; while let Ok(e) = rx.try_recv() { arrived(cx, &mut things, e, now(), 1)?; } }
                }
            }
        }
        settle().await;
        while let Ok(e) = rx.try_recv() { arrived(cx, &mut things, e, now(), 1)?; }
        if dropped { continue; }
        let t = now();
        // everything that fell due more than a tick ago has arrived
        for (id, s) in &things {
            match &s.kind {
                Kind::Timer { due, done } => ensure!(*done || *due + 1 > t, "timer {id}, due at {due}, did not fire by {t}\n{}", cx.trace.join("\n")),
                Kind::Every { start, step, sent, cancelled } => {
                    let until = cancelled.unwrap_or(t);
                    // (a tick due in the millisecond before the cancellation may have been cancelled)
                    let must = until.saturating_sub(start + 1) / step;
                    ensure!(*sent >= must, "interval {id} (every {step} from {start}, cancelled {cancelled:?}) sent {sent} messages by {t}\n{}", cx.trace.join("\n"));
                }
            }
        }
    }
    // cancelled intervals, and intervals without a receiver, end: what their closures hold is released
    if dropped { tokio::time::advance(Duration::from_millis(100)).await; }
    settle().await;
    for (id, s) in &things {
        let over = match &s.kind { Kind::Timer { .. } => continue, Kind::Every { cancelled, .. } => cancelled.is_some() || dropped };
        if over { ensure_eq!(Arc::strong_count(&s.alive), 1, "what the message function of ended interval {id} holds is still referenced\n{}", cx.trace.join("\n")); cx.count("ended intervals released"); }
    }
    cx.distinct(&h);
    Ok(())
}
fn arrived(cx: &mut Cx, things: &mut BTreeMap<u32, S>, e: MessageEnvelope<M>, t: u64, slack: u64) -> R {
    let (id, n) = e.message;
    let Some(s) = things.get_mut(&id) else { return Err(format!("message {:?} at {t} was never asked for\n{}", e.message, cx.trace.join("\n"))) };
    ensure_eq!((e.sender_id.as_deref().map(String::from), e.sender_type.clone()), s.sender.clone(), "sender of a delayed message");
    match &mut s.kind {
        Kind::Timer { due, done } => {
            ensure!(!*done, "timer {id} fired twice\n{}", cx.trace.join("\n"));
            ensure!(t >= *due && t <= *due + 1 + slack, "timer {id} fired at {t}, due {due}\n{}", cx.trace.join("\n"));
            *done = true;
            cx.count("timers fired");
        }
        Kind::Every { start, step, sent, cancelled } => {
            ensure!(cancelled.is_none(), "interval {id}, cancelled at {cancelled:?}, sent message {n} at {t}\n{}", cx.trace.join("\n"));
            ensure_eq!(n, *sent, "number of the message of interval {id} at {t}\n{}", cx.trace.join("\n"));
            *sent += 1;
            let due = *start + *step * *sent;
            ensure!(t >= due && t <= due + 1 + slack, "message {n} of interval {id} (every {step} from {start}) arrived at {t}, due {due}\n{}", cx.trace.join("\n"));
            cx.count("interval messages");
        }
    }
    Ok(())
}

/// real threads and real time: exactly once, never early, nothing after cancellation
fn real(cx: &mut Cx) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().map_err(|e| format!("harness: {e}"))?;
    let n = 20 + cx.r.below(60) as u32;
    let plan: Vec<(u64, bool)> = (0..n).map(|_| (1 + cx.r.below(40) as u64, cx.r.bool())).collect();
    cx.distinct(&plan);
    let cancel_at: Vec<u64> = (0..n).map(|_| cx.r.below(60) as u64).collect();
    rt.block_on(async {
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<MessageEnvelope<M>>();
        let mut hs: Vec<Option<IntervalHandle>> = vec![];
        let mut at = vec![];
        for (i, (d, every)) in plan.iter().enumerate() {
            let a = AppContext::new(tx.clone());
            at.push(std::time::Instant::now());
            if *every { let c = AtomicU64::new(0); hs.push(Some(a.set_interval(Duration::from_millis(*d), move || (i as u32, c.fetch_add(1, Ordering::Relaxed))))); } else { a.set_timer(Duration::from_millis(*d), (i as u32, 0)); hs.push(None); }
        }
        let mut seen = vec![0u64; n as usize];
        let mut after = vec![0u64; n as usize];
        let begin = std::time::Instant::now();
        let mut gone = vec![false; n as usize];
        while begin.elapsed() < Duration::from_millis(130) {
            while let Ok(e) = rx.try_recv() {
                let i = e.message.0 as usize;
                let (d, every) = plan[i];
                ensure!(e.message.1 == seen[i], "message {} of {} arrived as number {}", e.message.1, i, seen[i]);
                seen[i] += 1;
                if gone[i] { after[i] += 1; ensure!(after[i] <= 1, "interval {i} sent {} messages after it was cancelled", after[i]); }
                ensure!(every || seen[i] == 1, "timer {i} fired twice");
                ensure!(at[i].elapsed() >= Duration::from_millis(d) * seen[i] as u32, "message {} of {i} came after {:?}, too early for {d} ms", seen[i], at[i].elapsed());
                cx.count("messages in real time");
            }
            for i in 0..n as usize {
                if plan[i].1 && !gone[i] && begin.elapsed() >= Duration::from_millis(cancel_at[i]) {
                    if i % 2 == 0 { hs[i] = None } else { hs[i].as_mut().unwrap().cancel() }
                    // take what was sent before
                    gone[i] = true;
                    let mut rest = vec![];
                    while let Ok(e) = rx.try_recv() { rest.push(e); }
                    for e in rest { let j = e.message.0 as usize; ensure!(e.message.1 == seen[j], "message {} of {j} arrived as number {}", e.message.1, seen[j]); seen[j] += 1; if j != i && gone[j] { after[j] += 1; ensure!(after[j] <= 1, "interval {j} sent {} messages after it was cancelled", after[j]); } }
                }
            }
            tokio::time::sleep(Duration::from_micros(300)).await;
        }
        // timers: up to 20 s for a loaded machine
        let t = std::time::Instant::now();
        while (0..n as usize).any(|i| !plan[i].1 && seen[i] == 0) && t.elapsed() < Duration::from_secs(20) {
            while let Ok(e) = rx.try_recv() { seen[e.message.0 as usize] += 1; }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        for i in 0..n as usize { if !plan[i].1 { ensure_eq!(seen[i], 1, "times timer {i} fired"); } }
        cx.count("real-time runs");
        Ok(())
    })
}
