//! P03: declarations take effect as written whatever the formatting; parsing is total.
use crate::core::*;
use crate::css_gen::*;
use crate::{ensure, gen_text};
use tcss::parser::cascade::{WidgetMeta, compute_style};
use tcss::parser::parse_stylesheet;
use tcss::types::ComputedStyle;

pub fn prop() -> Prop {
    Prop { id: "P03", quick: 250_000, thorough: 12_000_000, run, workers: 8,
        rule: "each case is one stylesheet: 1-4 rules of 0-8 declarations drawn from all supported properties with whitespace/comment/case/!important/unknown-property noise, parsed and computed for a matching widget and compared field by field with an independent model; 1 in 4 is a mutated or garbage source (must return Ok or Err, and an accepted sheet must be computable); distinct = distinct sources",
        assumptions: &["text-style and border-title-style accumulate across declarations, link-style replaces", "selector nesting depth of generated garbage is bounded (stack depth is not explored)", "three-value spacing is unsupported by the grammar and not generated"] }
}

fn run(cx: &mut Cx) -> R {
    let th = &themes()[cx.r.below(themes().len())];
    let r = &mut cx.r;
    let noise = r.chance(3, 4);
    let mut src = String::new();
    let mut want = ComputedStyle::default();
    let mut names = Vec::new();
    for _ in 0..1 + r.below(4) {
        let hit = r.chance(3, 4);
        src.push_str(&ws(r, false, noise));
        src.push_str(if hit { "Btn" } else { *r.pick(&["Other", ".nope", "#nope", "btn", "Btn.nope", "Btn:frobnicate"]) });
        src.push_str(&ws(r, false, noise));
        src.push('{');
        let n = r.below(9);
        for i in 0..n {
            let dc = if r.chance(1, 12) { unknown(r) } else { decl(r) };
            src.push_str(&write_decl(r, &dc, i + 1 == n, noise));
            if hit { (dc.apply)(&mut want, th); }
            names.push(dc.prop);
        }
        src.push_str(&ws(r, false, noise));
        src.push('}');
    }
    src.push_str(&ws(r, false, noise));
    if r.chance(1, 4) {
        // hostile: mutate
        let mut cs: Vec<char> = src.chars().collect();
        if r.chance(1, 5) { cs = gen_text::garbage(r, 60).chars().collect(); }
        for _ in 0..1 + r.below(4) {
            let pos = r.below(cs.len() + 1);
            match r.below(6) {
                0 if !cs.is_empty() => { let p = pos.min(cs.len() - 1); cs.remove(p); }
                1 => cs.truncate(pos),
                2 => { let c = *r.pick(&['{', '}', ';', ':', '$', '&', '#', '.', '[', ']', '(', ')', '%', '"', '\'', '/', '*', '!', ',', '>', '+', '~', '-', '0', '9', 'é', '世', '\u{0}', '\u{301}']); cs.insert(pos, c); }
                3 => { let g = gen_text::garbage(r, 8); for (k, c) in g.chars().enumerate() { cs.insert((pos + k).min(cs.len()), c); } }
                4 => { let d: Vec<char> = "9".repeat(1 + r.below(40)).chars().collect(); for c in d { cs.insert(pos, c); } }
                _ => { let e = (pos + r.below(20)).min(cs.len()); let d: Vec<char> = cs[pos..e].to_vec(); for c in d { cs.push(c); } }
            }
        }
        let s: String = cs.into_iter().collect();
        cx.t(format!("mutated source: {s:?}"));
        match parse_stylesheet(&s) {
            Ok(sheet) => {
                let m = WidgetMeta { type_name: "Btn", ..Default::default() };
                let _ = compute_style(&m, &[], &sheet, th);
                // parsing is a function of the text
                let again = parse_stylesheet(&s);
                ensure!(again.is_ok_and(|x| x.rules == sheet.rules || format!("{:?}", x.rules) == format!("{:?}", sheet.rules)), "parsing the same text twice differs");
                cx.count("mutated source accepted");
            }
            Err(_) => cx.count("mutated source rejected"),
        }
        cx.distinct(&s);
        return Ok(());
    }
    cx.t(format!("source: {src}"));
    let sheet = parse_stylesheet(&src).map_err(|e| format!("a well-formed stylesheet was rejected: {e:?}\n{src}"))?;
    let m = WidgetMeta { type_name: "Btn", ..Default::default() };
    let got = compute_style(&m, &[], &sheet, th);
    if got != want {
        let (a, b) = (format!("{got:#?}"), format!("{want:#?}"));
        let diff: Vec<String> = a.lines().zip(b.lines()).filter(|(x, y)| x != y).map(|(x, y)| format!("got {x} / expected {y}")).take(6).collect();
        return Err(format!("computed style differs from the declarations: {}", diff.join("; ")));
    }
    for n in &names { cx.count(&format!("decl {n}")); }
    cx.count("well-formed sheets");
    cx.distinct(&src);
    cx.sample(|| src.clone());
    Ok(())
}
