//! P04: selector matching, nesting and cascade order follow CSS.
use crate::core::*;
use crate::css_gen::*;
use tcss::parser::cascade::{WidgetMeta, WidgetStates, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::types::{ComputedStyle, Theme};

pub fn prop() -> Prop {
    Prop { id: "P04", quick: 200_000, thorough: 10_000_000, run, workers: 8,
        rule: "each case is one stylesheet of 1-8 (possibly nested, multi-selector) rules over a small vocabulary of types, classes, ids and pseudo-classes plus one widget chain 1-7 deep; the computed style of the leaf is compared with an independent set-based matcher, flattener and cascade; distinct = distinct (source, chain) pairs where at least two rules match",
        assumptions: &["sibling combinators, attribute selectors and unknown pseudo-classes never match (the tree carries no such data)", "a rule's own declarations precede its nested rules in source order", "!important is accepted and has no effect"] }
}

#[derive(Clone, Debug, PartialEq)]
enum S { Ty(&'static str), Cl(&'static str), Id(&'static str), Any, Ps(&'static str), Attr }
#[derive(Clone, Copy, Debug, PartialEq)]
enum C { Desc, Child, Plus, Tilde }
/// compounds[0] c[0] compounds[1] c[1] ...
#[derive(Clone, Debug)]
struct Cx2 { comps: Vec<Vec<S>>, combs: Vec<C> }

const TYPES: &[&str] = &["Box", "Btn", "Lbl", "App"];
const CLASSES: &[&str] = &["a", "b", "-on", "c_1"];
const IDS: &[&str] = &["one", "two", "main-x"];
const PSEUDO: &[&str] = &["focus", "hover", "active", "disabled", "dark", "light", "ansi", "nocolor", "blur"];

fn simple(r: &mut Rng) -> S {
    match r.below(20) { 0..=7 => S::Cl(r.pick(CLASSES)), 8 | 9 => S::Id(r.pick(IDS)), 10..=14 => S::Ps(r.pick(PSEUDO)), 15 if r.chance(1, 6) => S::Attr, _ => S::Cl(r.pick(CLASSES)) }
}
fn compound(r: &mut Rng) -> Vec<S> {
    let mut v = Vec::new();
    match r.below(10) { 0..=4 => v.push(S::Ty(r.pick(TYPES))), 5 => v.push(S::Any), _ => v.push(simple(r)) }
    while r.chance(1, 4) { v.push(simple(r)); }
    v
}
fn complex(r: &mut Rng) -> Cx2 {
    let n = match r.below(8) { 0..=2 => 1, 3 | 4 => 2, 5 | 6 => 3, _ => 4 };
    let comps = (0..n).map(|_| compound(r)).collect();
    let combs = (1..n).map(|_| comb(r)).collect();
    Cx2 { comps, combs }
}
fn comb(r: &mut Rng) -> C { match r.below(12) { 0 if r.chance(1, 3) => C::Plus, 1 if r.chance(1, 3) => C::Tilde, 2..=5 => C::Child, _ => C::Desc } }

fn w_simple(s: &S) -> String { match s { S::Ty(t) => t.to_string(), S::Cl(c) => format!(".{c}"), S::Id(i) => format!("#{i}"), S::Any => "*".into(), S::Ps(p) => format!(":{p}"), S::Attr => "[kind=x]".into() } }
fn w_comb(r: &mut Rng, c: C) -> String {
    let sp = |r: &mut Rng| ws(r, false, true);
    match c { C::Desc => ws(r, true, true), C::Child => format!("{}>{}", sp(r), sp(r)), C::Plus => format!("{}+{}", sp(r), sp(r)), C::Tilde => format!("{}~{}", sp(r), sp(r)) }
}
fn w_complex(r: &mut Rng, x: &Cx2, amp: bool) -> String {
    let mut s = String::new();
    for (i, c) in x.comps.iter().enumerate() {
        if i > 0 { s.push_str(&w_comb(r, x.combs[i - 1])); }
        if i == 0 && amp { s.push('&'); }
        for k in c { s.push_str(&w_simple(k)); }
    }
    s
}

struct Rule { amp: Vec<bool>, sels: Vec<Cx2>, decls: Vec<Decl>, nested: Vec<Rule> }

fn rule(r: &mut Rng, depth: usize, top: bool) -> Rule {
    let n = match r.below(6) { 0 => 2, 1 => 3, _ => 1 };
    let mut amp = Vec::new();
    let mut sels = Vec::new();
    for _ in 0..n {
        let a = !top && r.chance(3, 5);
        let mut c = complex(r);
        if a {
            // "&" then only class/id/pseudo in the same compound (possibly nothing)
            let k = r.below(3);
            c.comps[0] = (0..k).map(|_| simple(r)).collect();
        }
        amp.push(a);
        sels.push(c);
    }
    let decls = (0..r.below(4)).map(|_| if r.chance(1, 2) { decl_of(r, 0) } else if r.bool() { decl_of(r, 6) } else { decl(r) }).collect();
    let nested = if depth > 0 && r.chance(1, 3) { (0..1 + r.below(2)).map(|_| rule(r, depth - 1, false)).collect() } else { vec![] };
    Rule { amp, sels, decls, nested }
}

fn write(r: &mut Rng, ru: &Rule, out: &mut String) {
    out.push_str(&ws(r, false, true));
    for (i, s) in ru.sels.iter().enumerate() {
        if i > 0 { out.push_str(&ws(r, false, true)); out.push(','); out.push_str(&ws(r, false, true)); }
        let t = w_complex(r, s, ru.amp[i]);
        out.push_str(&t);
    }
    out.push_str(&ws(r, false, true));
    out.push('{');
    let (mut d, mut n) = (0, 0);
    while d < ru.decls.len() || n < ru.nested.len() {
        if d < ru.decls.len() && (n == ru.nested.len() || r.chance(2, 3)) {
            let last = d + 1 == ru.decls.len() && n == ru.nested.len();
            out.push_str(&write_decl(r, &ru.decls[d], last, true));
            d += 1;
        } else { write(r, &ru.nested[n], out); n += 1; }
    }
    out.push_str(&ws(r, false, true));
    out.push('}');
}

fn flatten<'a>(ru: &'a Rule, parents: Option<&[Cx2]>, out: &mut Vec<(Vec<Cx2>, &'a [Decl])>) {
    let full: Vec<Cx2> = match parents {
        None => ru.sels.clone(),
        Some(ps) => {
            let mut v = Vec::new();
            for p in ps {
                for (i, c) in ru.sels.iter().enumerate() {
                    let mut comps = p.comps.clone();
                    let mut combs = p.combs.clone();
                    if ru.amp[i] { comps.last_mut().unwrap().extend(c.comps[0].iter().cloned()); }
                    else { combs.push(C::Desc); comps.push(c.comps[0].clone()); }
                    comps.extend(c.comps[1..].iter().cloned());
                    combs.extend(c.combs.iter().cloned());
                    v.push(Cx2 { comps, combs });
                }
            }
            v
        }
    };
    out.push((full.clone(), &ru.decls));
    for n in &ru.nested { flatten(n, Some(&full), out); }
}

fn m_simple(s: &S, w: &WidgetMeta, th: &Theme) -> bool {
    match s {
        S::Ty(t) => if w.type_names.is_empty() { w.type_name == *t } else { w.type_names.contains(t) },
        S::Cl(c) => w.classes.iter().any(|x| x == c),
        S::Id(i) => w.id.as_deref() == Some(*i),
        S::Any => true,
        S::Attr => false,
        S::Ps(p) => match *p {
            "focus" => w.states.contains(WidgetStates::FOCUS), "hover" => w.states.contains(WidgetStates::HOVER),
            "active" => w.states.contains(WidgetStates::ACTIVE), "disabled" => w.states.contains(WidgetStates::DISABLED),
            "dark" => th.is_dark, "light" => !th.is_dark, "ansi" => th.name.contains("ansi"), "nocolor" => th.name.contains("nocolor"), _ => false,
        },
    }
}

/// chain[0] = root … last = widget. Forward set-of-positions matching (left to right).
fn matches(x: &Cx2, chain: &[WidgetMeta], th: &Theme) -> bool {
    let ok = |i: usize, k: usize| x.comps[k].iter().all(|s| m_simple(s, &chain[i], th));
    let mut cur: Vec<bool> = (0..chain.len()).map(|i| ok(i, 0)).collect();
    for k in 1..x.comps.len() {
        let mut nx = vec![false; chain.len()];
        for i in 0..chain.len() {
            if !ok(i, k) { continue; }
            nx[i] = match x.combs[k - 1] { C::Child => i > 0 && cur[i - 1], C::Desc => cur[..i].iter().any(|b| *b), _ => false };
        }
        cur = nx;
    }
    cur[chain.len() - 1]
}
fn spec(x: &Cx2) -> (u32, u32, u32) {
    let mut s = (0, 0, 0);
    for k in x.comps.iter().flatten() { match k { S::Id(_) => s.0 += 1, S::Cl(_) | S::Ps(_) | S::Attr => s.1 += 1, S::Ty(_) => s.2 += 1, S::Any => {} } }
    s
}

fn run(cx: &mut Cx) -> R {
    let th = &themes()[cx.r.below(themes().len())];
    let r = &mut cx.r;
    let rules: Vec<Rule> = (0..1 + r.below(8)).map(|_| rule(r, 2, true)).collect();
    let chain: Vec<WidgetMeta> = (0..1 + r.below(7)).map(|_| {
        let t = *r.pick(TYPES);
        let mut st = WidgetStates::empty();
        for f in [WidgetStates::FOCUS, WidgetStates::HOVER, WidgetStates::ACTIVE, WidgetStates::DISABLED] { if r.chance(1, 2) { st |= f; } }
        WidgetMeta { type_name: t, type_names: match r.below(3) { 0 => vec![], 1 => vec![t], _ => vec![t, *r.pick(TYPES)] },
            id: if r.bool() { Some(r.pick(IDS).to_string()) } else { None },
            classes: CLASSES.iter().filter(|_| r.chance(3, 5)).map(|s| s.to_string()).collect(), states: st }
    }).collect();
    let mut src = String::new();
    for ru in &rules { write(r, ru, &mut src); }
    cx.t(format!("source:\n{src}\nchain (root first): {chain:#?}\ntheme {}", th.name));
    let mut flat = Vec::new();
    for ru in &rules { flatten(ru, None, &mut flat); }
    let mut hits: Vec<((u32, u32, u32), usize)> = Vec::new();
    for (i, (sels, _)) in flat.iter().enumerate() {
        if let Some(s) = sels.iter().filter(|s| matches(s, &chain, th)).map(spec).max() { hits.push((s, i)); }
    }
    hits.sort();
    let mut want = ComputedStyle::default();
    for (_, i) in &hits { for d in flat[*i].1 { (d.apply)(&mut want, th); } }
    let sheet = parse_stylesheet(&src).map_err(|e| format!("well-formed stylesheet rejected: {e:?}"))?;
    let mut anc: Vec<WidgetMeta> = chain[..chain.len() - 1].to_vec();
    anc.reverse();
    let got = compute_style(&chain[chain.len() - 1], &anc, &sheet, th);
    if got != want {
        let (a, b) = (format!("{got:#?}"), format!("{want:#?}"));
        let diff: Vec<String> = a.lines().zip(b.lines()).filter(|(x, y)| x != y).map(|(x, y)| format!("got {x} / expected {y}")).take(6).collect();
        return Err(format!("cascade result differs: {} (matching rules, weakest first: {hits:?})", diff.join("; ")));
    }
    cx.add("rules", flat.len() as u64);
    cx.add("matching rules", hits.len() as u64);
    if flat.iter().any(|f| f.0.len() > 1) { cx.count("sheets with selector lists"); }
    if hits.len() >= 2 { cx.count("cascades with >=2 matching rules"); cx.distinct(&(src.clone(), format!("{chain:?}"))); }
    cx.sample(|| src.clone());
    Ok(())
}
