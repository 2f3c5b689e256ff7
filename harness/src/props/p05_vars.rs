//! P05: stylesheet variables are replaced by their definitions everywhere; theme variables follow the active theme.
use crate::core::*;
use crate::css_gen::*;
use tcss::parser::cascade::{WidgetMeta, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::types::ComputedStyle;

pub fn prop() -> Prop {
    Prop { id: "P05", quick: 200_000, thorough: 8_000_000, run, workers: 8,
        rule: "each case is one stylesheet whose declaration values are partly or wholly replaced by user variables (chained, redefined, names that are prefixes of each other, names shadowing theme variables, defined before/after/between/inside rules, one per line or several per line, comments around), computed under 2 themes and compared with the model of the same declarations written without variables; distinct = distinct sources using at least one variable",
        assumptions: &["a definition is `$name: value` at a statement start, ends at ';' or end of line, and the last definition of a name applies to the whole stylesheet"] }
}

fn run(cx: &mut Cx) -> R {
    let r = &mut cx.r;
    let names = ["a", "a-b", "a-b-c", "a_b", "A", "fg", "primary-x", "my-color", "w", "w2", "9x", "gap", "ключ"];
    let mut defs: Vec<(String, String)> = Vec::new();
    let mut pool: Vec<&str> = names.to_vec();
    r.shuffle(&mut pool);
    let mut used = 0;
    let mut body: Vec<String> = Vec::new();
    let mut model: Vec<Decl> = Vec::new();
    for _ in 0..1 + r.below(3) {
        let hit = r.chance(4, 5);
        let mut s = String::new();
        s.push_str(if hit { "Btn" } else { "Other" });
        s.push_str(&ws(r, false, true));
        s.push('{');
        let n = r.below(6);
        for i in 0..n {
            let mut dc = decl(r);
            // leave quoted hatch characters alone
            if !pool.is_empty() && r.chance(3, 5) && !dc.toks.iter().any(|t| t.contains(['"', '\''])) {
                let i0 = r.below(dc.toks.len());
                let i1 = i0 + 1 + r.below(dc.toks.len() - i0);
                let val = dc.toks[i0..i1].join(" ");
                if r.chance(1, 3) && defs.iter().any(|d| d.1 == val) {
                    // reuse
                }
                let name = pool.pop().unwrap();
                let mut value = val;
                if r.chance(1, 3) && !pool.is_empty() {
                    // chain through another variable
                    let n2 = pool.pop().unwrap();
                    if r.bool() { defs.push((n2.to_string(), value.clone())); value = format!("${n2}"); }
                    else if let Some((h, t)) = value.clone().split_once(' ') { defs.push((n2.to_string(), h.to_string())); value = format!("${n2} {t}"); }
                    else { defs.push((n2.to_string(), value.clone())); value = format!("${n2}"); }
                }
                defs.push((name.to_string(), value));
                dc.toks.splice(i0..i1, [format!("${name}")]);
                used += 1;
            }
            s.push_str(&write_decl(r, &dc, i + 1 == n, true));
            if hit { model.push(dc); }
        }
        s.push_str(&ws(r, false, true));
        s.push('}');
        body.push(s);
    }
    // decoys: definitions nobody references, and earlier definitions that a later one replaces
    let mut order: Vec<(String, String)> = defs.clone();
    r.shuffle(&mut order);
    let mut early = Vec::new();
    for (n, _) in &order { if r.chance(1, 4) { early.push((n.clone(), "bogus value 12% #zz".to_string())); } }
    for n in &pool { if r.chance(1, 3) { early.push((n.to_string(), "unused 1".to_string())); } }
    early.extend(order);
    let mut src = String::new();
    let mut bi = 0;
    let mut di = 0;
    while bi < body.len() || di < early.len() {
        if di < early.len() && (bi == body.len() || r.chance(2, 3)) {
            let (n, v) = &early[di];
            let sp = |r: &mut Rng| *r.pick(&["", " ", "  ", "\t"]);
            src.push_str(&format!("{}${n}{}:{}{v}{}", ws(r, false, true), sp(r), sp(r), sp(r)));
            if r.chance(3, 4) { src.push(';'); src.push_str(&ws(r, false, true)); } else { src.push('\n'); }
            di += 1;
        } else { src.push_str(&ws(r, false, true)); src.push_str(&body[bi]); src.push_str(&ws(r, false, true)); bi += 1; }
    }
    cx.t(format!("source:\n{src}"));
    let sheet = parse_stylesheet(&src).map_err(|e| format!("well-formed stylesheet rejected: {e:?}"))?;
    for _ in 0..2 {
        let th = &themes()[cx.r.below(themes().len())];
        let mut want = ComputedStyle::default();
        for d in &model { (d.apply)(&mut want, th); }
        let got = compute_style(&WidgetMeta { type_name: "Btn", ..Default::default() }, &[], &sheet, th);
        if got != want {
            let (a, b) = (format!("{got:#?}"), format!("{want:#?}"));
            let diff: Vec<String> = a.lines().zip(b.lines()).filter(|(x, y)| x != y).map(|(x, y)| format!("got {x} / expected {y}")).take(6).collect();
            return Err(format!("variables did not resolve to their definitions (theme {}): {}", th.name, diff.join("; ")));
        }
    }
    cx.add("variable references", used);
    cx.add("definitions", early.len() as u64);
    if used > 0 { cx.distinct(&src); }
    cx.sample(|| src.clone());
    Ok(())
}
