//! P15: command search finds exactly the subsequence matches, scores the best embedding and highlights exactly it.
use crate::core::*;
use crate::gen_text as gt;
use crate::{ensure, ensure_eq};
use textual::command::{Provider, SimpleCommand, SimpleProvider, SystemCommand, SystemCommandsProvider};
use textual::fuzzy::{FuzzySearch, Matcher};

pub fn prop() -> Prop {
    Prop { id: "P15", quick: 600_000, thorough: 20_000_000, run, workers: 8,
        rule: "each case is one (query, candidate, case sensitivity) triple matched by FuzzySearch and Matcher, or one command set searched and discovered through SimpleProvider/SystemCommandsProvider; small cases compare the score with the maximum over all embeddings found by exhaustive enumeration, long repetitive ones run under the CPU watchdog; distinct = distinct triples with a match",
        assumptions: &["two characters are the same ignoring case when the first characters of their lowercase mappings agree (final sigma equals sigma)"] }
}

fn fold(c: char, cs: bool) -> char { if cs { return c; } match c.to_lowercase().next().unwrap_or(c) { 'ς' => 'σ', x => x } }
fn firsts(c: &[char]) -> Vec<bool> {
    let w = |c: char| c.is_alphanumeric() || c == '_';
    (0..c.len()).map(|i| w(c[i]) && (i == 0 || !w(c[i - 1]))).collect()
}
fn score(first: &[bool], pos: &[usize]) -> f64 {
    let n = pos.len() as f64;
    let f = pos.iter().filter(|&&p| first[p]).count() as f64;
    let groups = 1 + pos.windows(2).filter(|w| w[1] != w[0] + 1).count();
    let x = (n - (groups as f64 - 1.0)) / n;
    (n + f) * (1.0 + x * x)
}
fn best(q: &[char], c: &[char], first: &[bool], at: usize, pos: &mut Vec<usize>, out: &mut (f64, u64)) {
    if pos.len() == q.len() { out.1 += 1; let s = score(first, pos); if s > out.0 { out.0 = s; } return; }
    for i in at..c.len() { if c[i] == q[pos.len()] { pos.push(i); best(q, c, first, i + 1, pos, out); pos.pop(); } }
}
fn subseq(q: &[char], c: &[char]) -> bool { let mut it = c.iter(); q.iter().all(|x| it.any(|y| y == x)) }

const ALPHA: &[&str] = &["a", "b", "c", "A", "B", "_", " ", "-", "[", "]", "\\", "İ", "i", "Σ", "ς", "σ", "ß", "É", "é", "日", "/", "ﬁ", "K", "K"];
fn small(r: &mut Rng, max: usize, k: usize) -> String { let n = r.below(max + 1); (0..n).map(|_| ALPHA[r.below(k)]).collect() }

fn check(cx: &mut Cx, query: &str, cand: &str, cs: bool, exhaustive: bool) -> R {
    let (got, offs) = FuzzySearch::new(cs).match_candidate(query, cand);
    let orig: Vec<char> = cand.chars().collect();
    let c: Vec<char> = orig.iter().map(|&x| fold(x, cs)).collect();
    let q: Vec<char> = query.chars().map(|x| fold(x, cs)).collect();
    // word starts are judged on the characters compared
    let first = firsts(&c);
    let matches = !q.is_empty() && !c.is_empty() && subseq(&q, &c);
    ensure!((got > 0.0) == matches, "query {query:?} against {cand:?} (case sensitive {cs}): score {got}, but is {}a subsequence", if matches { "" } else { "not " });
    if !matches { ensure!(offs.is_empty(), "offsets without a match"); cx.count("no match"); }
    else {
        cx.distinct(&(query, cand, cs));
        ensure_eq!(offs.len(), q.len(), "number of matched positions for {query:?} in {cand:?}");
        for (i, &o) in offs.iter().enumerate() {
            ensure!(o < c.len() && c[o] == q[i] && (i == 0 || o > offs[i - 1]), "position {o} of {offs:?} does not match character {i} of {query:?} in {cand:?}");
        }
        let own = score(&first, &offs);
        let run = (0..=c.len() - q.len().min(c.len())).find(|&i| c[i..].starts_with(&q));
        let want = if let Some(at) = run {
            ensure_eq!(offs[0], at, "contiguous match of {query:?} in {cand:?} starts at its first occurrence");
            ensure_eq!(*offs.last().unwrap(), at + q.len() - 1, "contiguous match of {query:?} in {cand:?} is reported as one run");
            cx.count(if q.len() == c.len() { "exact" } else { "substring" });
            own * if q.len() == c.len() { 2.0 } else { 1.5 }
        } else if exhaustive {
            let mut b = (0.0, 0);
            best(&q, &c, &first, 0, &mut Vec::new(), &mut b);
            cx.add("embeddings enumerated", b.1);
            cx.count("scattered");
            b.0
        } else { cx.count("scattered, long"); own };
        ensure!((got as f64 - want).abs() <= 1e-4 * want, "score of {query:?} in {cand:?}: got {got} with {offs:?}, expected {want}");
    }
    // highlighting
    let m = Matcher::new(query, Some("bold".into()), cs);
    ensure!(m.match_score(cand) == got, "match_score differs from the search");
    highlight_ok(&m.highlight(cand), cand, &offs, query)
}

fn highlight_ok(h: &str, cand: &str, offs: &[usize], query: &str) -> R {
    let p = rich::ParsedMarkup::parse(h).map_err(|e| format!("highlight of {query:?} in {cand:?} is not valid markup: {e:?} ({h:?})"))?;
    ensure_eq!(p.text(), cand, "text of the highlighted candidate {h:?}");
    let mut on = vec![false; cand.len()];
    for s in p.spans() { if s.style.text.bold { for b in s.start..s.end { on[b] = true; } } }
    for (i, (b, ch)) in cand.char_indices().enumerate() {
        ensure!(on[b] == (offs.contains(&i) && !ch.is_whitespace()), "character {i} ({ch:?}) of {cand:?} for query {query:?}: highlighted {}, matched at {offs:?}", on[b]);
    }
    Ok(())
}

fn providers(cx: &mut Cx) -> R {
    let n = cx.r.below(8);
    let mut names = Vec::new();
    for _ in 0..n { let s = if cx.r.bool() { gt::words(&mut cx.r, 2, 5, true) } else { small(&mut cx.r, 8, ALPHA.len()) }; names.push((s, cx.r.bool(), cx.r.bool())); }
    let q = match cx.r.below(4) { 0 if n > 0 => { let i = cx.r.below(n); names[i].0.chars().filter(|_| cx.r.bool()).collect() } 1 => gt::word(&mut cx.r, 2, true), _ => small(&mut cx.r, 3, 6) };
    let system = cx.r.bool();
    let help = |i: usize, h: bool| if h { Some(format!("help {i}")) } else { None };
    let mut p: Box<dyn Provider> = if system {
        Box::new(SystemCommandsProvider::new(names.iter().enumerate().map(|(i, (n, d, h))| { let mut c = SystemCommand::new(n.clone(), format!("act{i}")).discoverable(*d); c.help = help(i, *h); c }).collect()))
    } else {
        Box::new(SimpleProvider::new(names.iter().enumerate().map(|(i, (n, d, h))| { let mut c = SimpleCommand::new(n.clone(), format!("act{i}")).discoverable(*d); c.help = help(i, *h); c }).collect()))
    };
    p.set_match_style("bold".into());
    let hits = futures_block(p.search(&q));
    let qf: Vec<char> = q.chars().map(|x| fold(x, false)).collect();
    let want: Vec<usize> = (0..n).filter(|&i| { let c: Vec<char> = names[i].0.chars().map(|x| fold(x, false)).collect(); !qf.is_empty() && !c.is_empty() && subseq(&qf, &c) }).collect();
    cx.add("provider hits", hits.len() as u64);
    ensure_eq!(hits.iter().map(|h| h.action.clone()).collect::<Vec<_>>(), want.iter().map(|i| format!("act{i}")).collect::<Vec<_>>(), "commands found for {q:?} among {names:?}");
    for (h, &i) in hits.iter().zip(&want) {
        ensure_eq!(h.text, names[i].0, "hit text");
        ensure_eq!(h.help, help(i, names[i].2), "hit help");
        let (s, o) = FuzzySearch::new(false).match_candidate(&q, &names[i].0);
        ensure!(h.score == s && s > 0.0, "hit score");
        highlight_ok(&h.match_display, &names[i].0, &o, &q)?;
    }
    let disc = futures_block(p.discover());
    let mut want: Vec<usize> = (0..n).filter(|&i| names[i].1).collect();
    if system { want.sort_by(|&a, &b| names[a].0.cmp(&names[b].0)); }
    ensure_eq!(disc.iter().map(|h| h.action.clone()).collect::<Vec<_>>(), want.iter().map(|i| format!("act{i}")).collect::<Vec<_>>(), "commands offered for discovery among {names:?}");
    for (h, &i) in disc.iter().zip(&want) {
        ensure_eq!(h.text, names[i].0, "discovery text");
        ensure_eq!(h.help, help(i, names[i].2), "discovery help");
        highlight_ok(&h.display, &names[i].0, &[], "")?;
    }
    Ok(())
}

fn futures_block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

fn run(cx: &mut Cx) -> R {
    let cs = cx.r.chance(1, 3);
    match cx.r.below(12) {
        0 | 1 => providers(cx),
        2 => { let (q, c) = (gt::garbage(&mut cx.r, 4), gt::garbage(&mut cx.r, 16)); cx.t(format!("{q:?} {c:?}")); check(cx, &q, &c, cs, true) }
        3 if cx.case % 16 == 3 => {
            // long, repetitive: everything matches everywhere
            let per = 1 + cx.r.below(3);
            let n = 40 + cx.r.below(120);
            let c: String = (0..n).map(|i| if cx.r.chance(1, 20) { ' ' } else { ['a', 'b', 'c'][i % per] }).collect();
            let mut q: String = (0..4 + cx.r.below(24)).map(|_| ['a', 'b', 'c', ' '][cx.r.below(per + 1)]).collect();
            if cx.r.chance(1, 4) { q.push('z'); }
            check(cx, &q, &c, cs, false)
        }
        4..=6 => {
            // a query that is a subsequence of the candidate
            let c = if cx.r.bool() { gt::words(&mut cx.r, 3, 4, true) } else { small(&mut cx.r, 12, ALPHA.len()) };
            let keep = 1 + cx.r.below(4) as u32;
            let mut q: String = c.chars().filter(|_| cx.r.chance(keep, 6)).collect();
            if cx.r.chance(1, 4) { q = q.to_uppercase(); }
            if cx.r.chance(1, 10) { q.push('b'); }
            check(cx, &q, &c, cs, true)
        }
        k => { let a = if k == 7 { ALPHA.len() } else { 3 + cx.r.below(6) }; let (q, c) = (small(&mut cx.r, 5, a), small(&mut cx.r, 11, a)); check(cx, &q, &c, cs, true) }
    }
}
