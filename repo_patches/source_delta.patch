From 6752bcde71ea7e0cfdea31ad4f5d6e145435381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 01/69] fix: apply nested markup tags on top of their enclosing
 tags

---
 crates/rich/src/parser/markup.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index ecd47d3..8dbfe0b 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -39,6 +39,11 @@ pub fn parse(input: &str) -> Result<ParsedMarkup, RichParseError> {
     // Close any remaining open tags
     parser.close_all_remaining();
 
+    // Spans are recorded as tags close (inner first); put them in opening order so
+    // that nested tags are applied on top of the tags that enclose them.
+    parser.spans.reverse();
+    parser.spans.sort_by_key(|span| span.start);
+
     Ok(ParsedMarkup::new(parser.output, parser.spans))
 }
 
-- 
2.43.0


From b4530e46aab0884c511249e1bc59088472ad600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 02/69] fix: reject multibyte hex colours in markup instead of
 panicking

---
 crates/rich/src/color.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rich/src/color.rs b/crates/rich/src/color.rs
index a333573..f4159fb 100644
--- a/crates/rich/src/color.rs
+++ b/crates/rich/src/color.rs
@@ -53,7 +53,8 @@ impl Color {
 
     /// Parse a hex color (without the # prefix).
     fn parse_hex(hex: &str) -> Result<Self, ColorParseError> {
-        match hex.len() {
+        // Digits are addressed by character below, so count characters, not bytes
+        match hex.chars().count() {
             // #RGB
             3 => {
                 let r = Self::parse_hex_digit(hex.chars().nth(0).unwrap())?;
-- 
2.43.0


From 5d9f2756524b2be9288cdd8ae16e4e92da9aeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:10 +0000
Subject: [PATCH 03/69] fix: reject rgb/hsl colours whose parentheses are
 reversed instead of panicking

---
 crates/tcss/src/types/color.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index f407041..2ba53ed 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -535,7 +535,9 @@ impl RgbaColor {
             message: "missing ')' in rgb function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = input.get(start + 1..end).ok_or_else(|| ColorParseError {
+            message: "misplaced ')' in rgb function".to_string(),
+        })?;
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
@@ -566,7 +568,9 @@ impl RgbaColor {
             message: "missing ')' in hsl function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = input.get(start + 1..end).ok_or_else(|| ColorParseError {
+            message: "misplaced ')' in hsl function".to_string(),
+        })?;
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
-- 
2.43.0


From 847726db2312a07fe2351c6a0351cebb4cd7bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 04/69] fix: clamp colour alpha to 0..1 and reject NaN

---
 crates/tcss/src/parser/values.rs |  2 +-
 crates/tcss/src/types/color.rs   | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/tcss/src/parser/values.rs b/crates/tcss/src/parser/values.rs
index e879304..12d1bb4 100644
--- a/crates/tcss/src/parser/values.rs
+++ b/crates/tcss/src/parser/values.rs
@@ -92,7 +92,7 @@ fn parse_optional_alpha(input: &str, mut color: RgbaColor) -> (&str, RgbaColor)
             // Parse the percentage
             let percent_str = &trimmed[..end];
             if let Ok(percent) = percent_str.parse::<f32>() {
-                color.a = percent / 100.0;
+                color.a = (percent / 100.0).clamp(0.0, 1.0);
                 // Return after the '%'
                 return (&trimmed[end + 1..], color);
             }
diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index 2ba53ed..fad2423 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -551,7 +551,7 @@ impl RgbaColor {
         let b = Self::parse_u8(parts[2])?;
 
         let a = if parts.len() >= 4 {
-            Self::parse_f32(parts[3])?
+            Self::parse_alpha(parts[3])?
         } else {
             1.0
         };
@@ -587,7 +587,7 @@ impl RgbaColor {
         let l = Self::parse_percentage(parts[2])?;
 
         let a = if parts.len() >= 4 {
-            Self::parse_f32(parts[3])?
+            Self::parse_alpha(parts[3])?
         } else {
             1.0
         };
@@ -608,10 +608,14 @@ impl RgbaColor {
         Ok(val as u8)
     }
 
-    fn parse_f32(s: &str) -> Result<f32, ColorParseError> {
-        s.parse().map_err(|_| ColorParseError {
-            message: format!("invalid float: {}", s),
-        })
+    /// Parse an alpha component; like CSS, out-of-range values are clamped to 0..=1.
+    fn parse_alpha(s: &str) -> Result<f32, ColorParseError> {
+        match s.parse::<f32>() {
+            Ok(alpha) if !alpha.is_nan() => Ok(alpha.clamp(0.0, 1.0)),
+            _ => Err(ColorParseError {
+                message: format!("invalid alpha: {}", s),
+            }),
+        }
     }
 
     fn parse_percentage(s: &str) -> Result<f32, ColorParseError> {
-- 
2.43.0


From 644431041ce519e6da24c0c336bf6225229032cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:19 +0000
Subject: [PATCH 05/69] fix: wrap hsl hues beyond one turn

---
 crates/tcss/src/types/color.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index fad2423..517bc11 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -724,7 +724,7 @@ impl RgbaColor {
 
     /// Creates an RgbaColor from HSL values.
     pub fn from_hsl(h: f32, s: f32, l: f32, a: f32) -> Self {
-        let h = h / 360.0;
+        let h = h.rem_euclid(360.0) / 360.0;
         let (r, g, b) = if s == 0.0 {
             (l, l, l)
         } else {
@@ -755,7 +755,7 @@ impl RgbaColor {
             return (gray, gray, gray);
         }
 
-        let h = h / 360.0;
+        let h = h.rem_euclid(360.0) / 360.0;
         let q = if l < 0.5 {
             l * (1.0 + s)
         } else {
-- 
2.43.0


From d3a63317bd3b8f450a54df4f4e40ff75d8ab12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:37 +0000
Subject: [PATCH 06/69] fix: end an unknown declaration at its own rule's
 closing brace

Without a trailing semicolon the value used to extend to the next ';'
anywhere in the stylesheet, swallowing the following rules.
---
 crates/tcss/src/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/tcss/src/parser/mod.rs b/crates/tcss/src/parser/mod.rs
index 284b6ed..44fb814 100644
--- a/crates/tcss/src/parser/mod.rs
+++ b/crates/tcss/src/parser/mod.rs
@@ -407,7 +407,5 @@ fn take_until_balanced_braces(input: &str) -> IResult<&str, &str> {
 }
 
 fn take_until_semicolon_or_brace(input: &str) -> IResult<&str, &str> {
-    nom::bytes::complete::take_until(";")(input).or_else(|_: nom::Err<nom::error::Error<&str>>| {
-        nom::bytes::complete::take_until("}")(input)
-    })
+    nom::bytes::complete::take_till(|c| c == ';' || c == '}')(input)
 }
-- 
2.43.0


From 6598faf2e235a809503e276a3b7f373f39e314b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:33 +0000
Subject: [PATCH 07/69] fix: try every ancestor when matching descendant
 combinators

The matcher bound each descendant part to the nearest matching ancestor
and never reconsidered, so 'A > B C' missed a C whose nearest B is not a
child of A but whose outer B is.
---
 crates/tcss/src/parser/cascade.rs | 87 ++++++++++++-------------------
 1 file changed, 33 insertions(+), 54 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index a4fb433..03fb4ec 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -27,7 +27,8 @@ use bitflags::bitflags;
 
 use crate::{
     parser::{
-        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, Specificity, StyleSheet,
+        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, SelectorPart,
+        Specificity, StyleSheet,
     },
     types::{Border, ComputedStyle, RgbaColor, Theme},
 };
@@ -158,9 +159,9 @@ impl WidgetMeta {
 
         // The rightmost part must match the widget itself.
         let parts = &complex.parts;
-        let mut current_part_idx = parts.len() - 1;
+        let last = parts.len() - 1;
 
-        if !parts[current_part_idx]
+        if !parts[last]
             .compound
             .selectors
             .iter()
@@ -169,61 +170,39 @@ impl WidgetMeta {
             return false;
         }
 
-        // If that was the only part, we matched.
-        if parts.len() == 1 {
-            return true;
-        }
-
-        // Match remaining parts against ancestors.
-        let mut ancestor_idx = 0;
-        current_part_idx -= 1;
-
-        while current_part_idx < parts.len() && ancestor_idx < ancestors.len() {
-            let part = &parts[current_part_idx];
-            let ancestor = &ancestors[ancestor_idx];
-
-            let matches = part
-                .compound
-                .selectors
-                .iter()
-                .all(|s| ancestor.matches_selector(s, ctx));
+        // The remaining parts must match a chain of ancestors.
+        Self::matches_ancestors(&parts[..last], ancestors, ctx)
+    }
 
-            match part.combinator {
-                Combinator::Child => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    } else {
-                        return false;
-                    }
-                    ancestor_idx += 1;
-                }
-                Combinator::Descendant | Combinator::None => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    }
-                    ancestor_idx += 1;
-                }
-                // FIX: Add explicit return to satisfy type checker
-                Combinator::AdjacentSibling | Combinator::GeneralSibling => {
-                    return false;
-                }
-            }
-        }
+    /// Matches selector parts (all but the rightmost) against an ancestor chain.
+    ///
+    /// `ancestors` is ordered nearest first. A descendant combinator may skip any
+    /// number of ancestors, so every candidate is tried before giving up.
+    fn matches_ancestors(
+        parts: &[SelectorPart],
+        ancestors: &[WidgetMeta],
+        ctx: &SelectorContext,
+    ) -> bool {
+        let Some((part, rest)) = parts.split_last() else {
+            return true;
+        };
+        let candidates = match part.combinator {
+            Combinator::Child => 1,
+            Combinator::Descendant | Combinator::None => ancestors.len(),
+            Combinator::AdjacentSibling | Combinator::GeneralSibling => 0,
+        };
 
-        current_part_idx == usize::MAX
-            || current_part_idx == 0
-                && ancestor_idx < ancestors.len()
-                && parts[0]
-                    .compound
+        ancestors
+            .iter()
+            .take(candidates)
+            .enumerate()
+            .any(|(i, ancestor)| {
+                part.compound
                     .selectors
                     .iter()
-                    .all(|s| ancestors[ancestor_idx].matches_selector(s, ctx))
+                    .all(|s| ancestor.matches_selector(s, ctx))
+                    && Self::matches_ancestors(rest, &ancestors[i + 1..], ctx)
+            })
     }
 }
 
-- 
2.43.0


From 6fd7d8c4a83d7064a4fd65797e60eb2ab5df8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:52 +0000
Subject: [PATCH 08/69] fix: rank a rule by the most specific of its matching
 selectors

---
 crates/tcss/src/parser/cascade.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index 03fb4ec..5a2ad62 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -218,16 +218,21 @@ pub fn compute_style(
 
     // 1. Find all matching rules
     for (idx, rule) in stylesheet.rules.iter().enumerate() {
-        for complex in &rule.selectors.selectors {
-            if widget.matches_complex(complex, ancestors, &ctx) {
-                matched_rules.push(MatchedRule {
-                    specificity: complex.specificity(),
-                    source_order: idx,
-                    rule,
-                });
-                // Once one selector in a rule matches, the whole rule applies.
-                break;
-            }
+        // Once one selector in a rule matches, the whole rule applies, with the
+        // specificity of the most specific selector that matched.
+        let specificity = rule
+            .selectors
+            .selectors
+            .iter()
+            .filter(|complex| widget.matches_complex(complex, ancestors, &ctx))
+            .map(|complex| complex.specificity())
+            .max();
+        if let Some(specificity) = specificity {
+            matched_rules.push(MatchedRule {
+                specificity,
+                source_order: idx,
+                rule,
+            });
         }
     }
 
-- 
2.43.0


From c617efa63d70ac5e899a08e4e7594fd0a2f6f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:13 +0000
Subject: [PATCH 09/69] fix: recognise variable definitions per statement and
 expand variables in their values

Definitions were recognised per line: text after a definition on the same
line (further definitions or whole rules) was dropped, a continuation line
starting with a variable reference vanished, and a variable defined through
another variable stayed unresolved.
---
 crates/tcss/src/parser/variables.rs | 163 ++++++++++++++++------------
 1 file changed, 95 insertions(+), 68 deletions(-)

diff --git a/crates/tcss/src/parser/variables.rs b/crates/tcss/src/parser/variables.rs
index c7bed1c..8df7268 100644
--- a/crates/tcss/src/parser/variables.rs
+++ b/crates/tcss/src/parser/variables.rs
@@ -56,88 +56,115 @@ impl StylesheetVariables {
 }
 
 pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<String, TcssError> {
-    let mut output = String::new();
-
-    // Pass 1: Strip Block Comments entirely before processing
-    let mut clean_source = String::new();
-    let mut chars = source.chars().peekable();
-    while let Some(c) = chars.next() {
-        if c == '/' && chars.peek() == Some(&'*') {
-            chars.next();
-            while let Some(inner) = chars.next() {
-                if inner == '*' && chars.peek() == Some(&'/') {
-                    chars.next();
-                    break;
-                }
-            }
-            continue;
+    let mut output = String::with_capacity(source.len());
+    for token in tokenize(source) {
+        match token {
+            Token::Text(text) => output.push_str(text),
+            // Definitions shouldn't be resolved or included in final CSS
+            Token::Definition(..) => output.push(' '),
+            Token::Reference(name) => expand_reference(name, vars, &mut Vec::new(), &mut output),
         }
-        clean_source.push(c);
     }
+    Ok(output)
+}
 
-    // Pass 2: Resolve variables line by line
-    for line in clean_source.lines() {
-        let trimmed = line.trim();
-        // Skip definition lines - they shouldn't be resolved or included in final CSS
-        if trimmed.starts_with('$') {
-            continue;
-        }
-
-        let mut resolved_line = String::new();
-        let mut line_chars = line.chars().peekable();
-        while let Some(c) = line_chars.next() {
-            if c == '$' {
-                let mut name = String::new();
-                while let Some(&next) = line_chars.peek() {
-                    if next.is_alphanumeric() || next == '-' || next == '_' {
-                        name.push(line_chars.next().unwrap());
-                    } else {
-                        break;
-                    }
-                }
-                if let Some(val) = vars.resolve(&name) {
-                    resolved_line.push_str(&val);
-                } else {
-                    resolved_line.push('$');
-                    resolved_line.push_str(&name);
-                }
-            } else {
-                resolved_line.push(c);
-            }
-        }
-        output.push_str(&resolved_line);
-        output.push('\n');
+/// Appends the value of `$name` to `output`, expanding references inside the value.
+///
+/// Names without a definition (theme variables) and references of a variable to
+/// itself are left as written.
+fn expand_reference<'a>(
+    name: &'a str,
+    vars: &'a StylesheetVariables,
+    active: &mut Vec<&'a str>,
+    output: &mut String,
+) {
+    let value = vars.variables.get(name).filter(|_| !active.contains(&name));
+    let Some(value) = value else {
+        output.push('$');
+        output.push_str(name);
+        return;
+    };
+    active.push(name);
+    let mut rest = value.as_str();
+    while let Some(idx) = rest.find('$') {
+        output.push_str(&rest[..idx]);
+        let (inner, after) = split_name(&rest[idx + 1..]);
+        expand_reference(inner, vars, active, output);
+        rest = after;
     }
-
-    Ok(output)
+    output.push_str(rest);
+    active.pop();
 }
 
 pub fn extract_variables(source: &str) -> StylesheetVariables {
     let mut vars = StylesheetVariables::new();
-    let mut in_comment = false;
-    for line in source.lines() {
-        let trimmed = line.trim();
-        if trimmed.contains("/*") {
-            in_comment = true;
+    for token in tokenize(source) {
+        if let Token::Definition(name, value) = token {
+            vars.define(name.to_string(), value.to_string());
         }
-        if trimmed.contains("*/") {
-            in_comment = false;
+    }
+    vars
+}
+
+enum Token<'a> {
+    /// Source text without variables.
+    Text(&'a str),
+    /// `$name: value;` where a statement may start.
+    Definition(&'a str, &'a str),
+    /// `$name` anywhere else.
+    Reference(&'a str),
+}
+
+/// Splits a leading variable name off `input`.
+fn split_name(input: &str) -> (&str, &str) {
+    let end = input
+        .find(|c: char| !(c.is_alphanumeric() || c == '-' || c == '_'))
+        .unwrap_or(input.len());
+    input.split_at(end)
+}
+
+/// Splits a stylesheet into plain text, variable definitions and variable references.
+/// Block comments are dropped.
+fn tokenize(source: &str) -> Vec<Token<'_>> {
+    let mut tokens = Vec::new();
+    let mut rest = source;
+    // A definition can only appear where a statement starts.
+    let mut statement_start = true;
+
+    while !rest.is_empty() {
+        if let Some(comment) = rest.strip_prefix("/*") {
+            rest = comment.find("*/").map_or("", |end| &comment[end + 2..]);
             continue;
         }
-        if in_comment {
+        if let Some(after_dollar) = rest.strip_prefix('$') {
+            let (name, after_name) = split_name(after_dollar);
+            if statement_start {
+                if let Some(value) = after_name.trim_start().strip_prefix(':') {
+                    // The value ends at the semicolon, or at the end of the line without one.
+                    let end = value.find([';', '\n']).unwrap_or(value.len());
+                    tokens.push(Token::Definition(name, value[..end].trim()));
+                    rest = value[end..].strip_prefix(';').unwrap_or(&value[end..]);
+                    continue;
+                }
+            }
+            tokens.push(Token::Reference(name));
+            rest = after_name;
+            statement_start = false;
             continue;
         }
 
-        if trimmed.starts_with('$') {
-            if let Some(colon_idx) = trimmed.find(':') {
-                let name = trimmed[1..colon_idx].trim().to_string();
-                let mut value = trimmed[colon_idx + 1..].trim();
-                if value.ends_with(';') {
-                    value = &value[..value.len() - 1];
-                }
-                vars.define(name, value.to_string());
-            }
+        // Plain text runs up to the next variable or comment.
+        let end = rest
+            .char_indices()
+            .skip(1)
+            .find(|&(i, c)| c == '$' || rest[i..].starts_with("/*"))
+            .map_or(rest.len(), |(i, _)| i);
+        let (text, after) = rest.split_at(end);
+        if let Some(last) = text.trim_end().chars().last() {
+            statement_start = matches!(last, ';' | '{' | '}');
         }
+        tokens.push(Token::Text(text));
+        rest = after;
     }
-    vars
+    tokens
 }
-- 
2.43.0


From f6d4e9f0398d316f96e019391ab5ff6e8ebd7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:05 +0000
Subject: [PATCH 10/69] fix: accept !important after text styles, layers and
 unspaced colours

These values swallowed the marker: the stylesheet was rejected, or a layer
named '!important' appeared.
---
 crates/tcss/src/parser/values.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/tcss/src/parser/values.rs b/crates/tcss/src/parser/values.rs
index 12d1bb4..b9c6a0b 100644
--- a/crates/tcss/src/parser/values.rs
+++ b/crates/tcss/src/parser/values.rs
@@ -123,7 +123,7 @@ fn find_color_end(input: &str) -> usize {
                 }
             }
             // Stop at delimiters if we aren't inside parens
-            ';' | '}' if paren_depth == 0 => return i,
+            ';' | '}' | '!' if paren_depth == 0 => return i,
             c if c.is_whitespace() && paren_depth == 0 => return i,
             _ => {}
         }
@@ -439,9 +439,9 @@ pub fn parse_content_align(
 pub fn parse_text_style(input: &str) -> IResult<&str, TextStyle> {
     let input = input.trim_start();
 
-    // Find where the text style value ends (at ; or })
+    // Find where the text style value ends (at ; or } or !important)
     let end = input
-        .find(|c: char| c == ';' || c == '}')
+        .find([';', '}', '!'])
         .unwrap_or(input.len());
     let value_str = input[..end].trim();
 
@@ -534,9 +534,9 @@ pub fn parse_layer(input: &str) -> IResult<&str, String> {
 pub fn parse_layers(input: &str) -> IResult<&str, Vec<String>> {
     let input = input.trim_start();
 
-    // Find where the value ends (at ; or })
+    // Find where the value ends (at ; or } or !important)
     let end = input
-        .find(|c: char| c == ';' || c == '}')
+        .find([';', '}', '!'])
         .unwrap_or(input.len());
     let value_str = input[..end].trim();
 
@@ -663,7 +663,7 @@ pub fn parse_keyline(input: &str) -> IResult<&str, crate::types::Keyline> {
     // If style is "none", color is optional (defaults to transparent)
     if style == KeylineStyle::None {
         let input = input.trim_start();
-        if input.is_empty() || input.starts_with(';') || input.starts_with('}') {
+        if input.is_empty() || input.starts_with([';', '}', '!']) {
             return Ok((input, Keyline::new(style, RgbaColor::transparent())));
         }
     }
-- 
2.43.0


From fb44b780353b778b3081bcb312b21ef08b2e104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:07 +0000
Subject: [PATCH 11/69] fix: keep the computed style of Center and Middle so
 restyled children inherit from them

---
 crates/textual/src/containers.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 42cb4f6..6753f8b 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -82,6 +82,7 @@ fn inner_region_from_cache(
 /// Centered horizontally
 pub struct Center<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -98,6 +99,7 @@ impl<M> Center<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -157,6 +159,14 @@ impl<M> Widget<M> for Center<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
@@ -224,6 +234,7 @@ impl<M> Widget<M> for Center<M> {
 /// Centered vertically
 pub struct Middle<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -240,6 +251,7 @@ impl<M> Middle<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -299,6 +311,14 @@ impl<M> Widget<M> for Middle<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
-- 
2.43.0


From d3e5c18dc5ce6e0bb7538a28745c7dd3638da38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:49 +0000
Subject: [PATCH 12/69] fix: restyle when a class is added to a static-based
 widget or an indicator is shown

---
 crates/textual/src/widget/loading_indicator.rs | 5 ++++-
 crates/textual/src/widget/static_widget.rs     | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index 4468b2b..129b3c4 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -170,7 +170,10 @@ LoadingIndicator {
     }
 
     fn set_visible(&mut self, visible: bool) {
-        self.visible = visible;
+        if self.visible != visible {
+            self.visible = visible;
+            self.dirty = true;
+        }
     }
 
     fn is_loading(&self) -> bool {
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index cb0365a..5d727c3 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -163,7 +163,11 @@ impl<M> Static<M> {
 
     /// Add a single CSS class.
     pub fn add_class(&mut self, class: impl Into<String>) {
-        self.classes.push(class.into());
+        let class = class.into();
+        if !self.classes.contains(&class) {
+            self.classes.push(class);
+            self.dirty = true;
+        }
     }
 
     /// Set whether the widget expands to fill available space.
-- 
2.43.0


From 476fc3970e1fd0880d03ecd8c2025ff6050ac0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 13/69] fix: an inline colour override decides whether the
 colour is automatic

---
 crates/tcss/src/types/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tcss/src/types/mod.rs b/crates/tcss/src/types/mod.rs
index 74b104b..1d58ff9 100644
--- a/crates/tcss/src/types/mod.rs
+++ b/crates/tcss/src/types/mod.rs
@@ -230,6 +230,7 @@ impl StyleOverride {
         }
         if let Some(color) = &self.color {
             style.color = Some(color.clone());
+            style.auto_color = color.auto;
         }
     }
 }
-- 
2.43.0


From 94601797ac501a05805a1ea28d78f839cfbd7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:46 +0000
Subject: [PATCH 14/69] fix: crop lines to exactly the requested width when the
 cut falls inside a wide character

---
 crates/textual/src/strip.rs | 41 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 7057158..37afaab 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -11,6 +11,7 @@
 //!         You are here
 //! ```
 
+use crate::grapheme::{display_width, graphemes};
 use crate::segment::{Segment, Style};
 use smallvec::{SmallVec, smallvec};
 use std::collections::HashMap;
@@ -200,24 +201,10 @@ impl Strip {
             if local_start == 0 && local_end == seg_len {
                 // Include entire segment
                 result_segments.push(segment.clone());
-            } else if local_start == 0 {
-                // Take from start
-                let (left, _) = segment.split_at(local_end);
-                if !left.is_empty() {
-                    result_segments.push(left);
-                }
-            } else if local_end == seg_len {
-                // Take to end
-                let (_, right) = segment.split_at(local_start);
-                if !right.is_empty() {
-                    result_segments.push(right);
-                }
             } else {
-                // Take middle portion
-                let (_, temp) = segment.split_at(local_start);
-                let (middle, _) = temp.split_at(local_end - local_start);
-                if !middle.is_empty() {
-                    result_segments.push(middle);
+                let part = crop_segment(segment, local_start, local_end);
+                if !part.is_empty() {
+                    result_segments.push(part);
                 }
             }
 
@@ -475,6 +462,26 @@ impl Strip {
     }
 }
 
+/// The part of a segment that covers cells `start..end`.
+///
+/// The result is exactly `end - start` cells wide: a wide character that is only
+/// partly covered leaves blank cells.
+fn crop_segment(segment: &Segment, start: usize, end: usize) -> Segment {
+    let mut text = String::new();
+    let mut cell = 0;
+    for grapheme in graphemes(segment.text()) {
+        let next = cell + display_width(grapheme);
+        if cell >= start && next <= end {
+            text.push_str(grapheme);
+        } else {
+            let covered = next.min(end).saturating_sub(cell.max(start));
+            text.push_str(&" ".repeat(covered));
+        }
+        cell = next;
+    }
+    build_segment(&text, segment.style().cloned(), segment.meta())
+}
+
 fn build_segment(text: &str, style: Option<Style>, meta: &HashMap<String, String>) -> Segment {
     let mut segment = match style {
         Some(style) => Segment::styled(text, style),
-- 
2.43.0


From cdae11158ff8c2dc9489db433d12282bdc207f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:43 +0000
Subject: [PATCH 15/69] fix: keep action metadata when merging segments of a
 line

---
 crates/textual/src/strip.rs | 42 +++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 37afaab..342fcd9 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -257,37 +257,33 @@ impl Strip {
         }
 
         let mut result = SegmentVec::new();
-        let mut current_text = String::new();
-        let mut current_style: Option<Style> = None;
-        let mut has_current = false;
+        let mut current: Option<(String, &Segment)> = None;
 
         for segment in &self.segments {
-            if !has_current {
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
-                has_current = true;
-            } else if segment.style() == current_style.as_ref() {
-                // Same style, merge text
-                current_text.push_str(segment.text());
-            } else {
-                // Different style, emit current and start new
-                if !current_text.is_empty() {
-                    match current_style {
-                        Some(s) => result.push(Segment::styled(current_text, s)),
-                        None => result.push(Segment::new(current_text)),
+            match &mut current {
+                // Same style and metadata, merge text
+                Some((text, first))
+                    if segment.style() == first.style() && segment.meta() == first.meta() =>
+                {
+                    text.push_str(segment.text());
+                }
+                // Different style or metadata, emit current and start new
+                _ => {
+                    if let Some((text, first)) = current.take()
+                        && !text.is_empty()
+                    {
+                        result.push(build_segment(&text, first.style().cloned(), first.meta()));
                     }
+                    current = Some((segment.text().to_string(), segment));
                 }
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
             }
         }
 
         // Emit final segment
-        if !current_text.is_empty() {
-            match current_style {
-                Some(s) => result.push(Segment::styled(current_text, s)),
-                None => result.push(Segment::new(current_text)),
-            }
+        if let Some((text, first)) = current
+            && !text.is_empty()
+        {
+            result.push(build_segment(&text, first.style().cloned(), first.meta()));
         }
 
         Strip::from_smallvec(result)
-- 
2.43.0


From f159d2ed90d128182333e10c04a936a761157da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:22 +0000
Subject: [PATCH 16/69] fix: hatch only the blank cells of a line, keeping the
 colour of its text

---
 crates/textual/src/strip.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 342fcd9..0a21458 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -448,13 +448,25 @@ impl Strip {
     /// Replaces space characters with the hatch character and applies
     /// the hatch color as the foreground. Non-space characters are unchanged.
     pub fn apply_hatch(&self, hatch_char: char, hatch_color: &RgbaColor, opacity: f32) -> Strip {
-        let hatched_segments: SegmentVec = self
-            .segments
-            .iter()
-            .map(|seg| seg.apply_hatch(hatch_char, hatch_color, opacity))
-            .collect();
+        let mut segments = SegmentVec::new();
+        for seg in &self.segments {
+            // Hatch runs of spaces only, so that text keeps its own color
+            let mut rest = seg.text();
+            while let Some(first) = rest.chars().next() {
+                let blank = first == ' ';
+                let end = rest.find(|c| (c == ' ') != blank).unwrap_or(rest.len());
+                let (run, tail) = rest.split_at(end);
+                rest = tail;
+                let part = build_segment(run, seg.style().cloned(), seg.meta());
+                segments.push(if blank {
+                    part.apply_hatch(hatch_char, hatch_color, opacity)
+                } else {
+                    part
+                });
+            }
+        }
 
-        Strip::from_smallvec(hatched_segments)
+        Strip::from_smallvec(segments)
     }
 }
 
-- 
2.43.0


From c92e6987f9eeb4308caa960f5b38e2c39f6bf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:58 +0000
Subject: [PATCH 17/69] fix: wrap styled text like plain text, keeping
 whitespace and blank lines, and fold between graphemes

---
 crates/textual/src/content.rs | 256 ++++++++++++----------------------
 1 file changed, 90 insertions(+), 166 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 8df4ef1..487309e 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -25,7 +25,7 @@
 
 use std::collections::HashMap;
 
-use crate::grapheme::{display_width, graphemes};
+use crate::grapheme::{display_width, grapheme_indices};
 use crate::segment::{Segment, Style};
 use crate::strip::Strip;
 use tcss::types::link::LinkStyle;
@@ -649,7 +649,7 @@ impl Content {
         result
     }
 
-    /// Wraps a single line while preserving styled spans.
+    /// Wrap a single line while preserving spans.
     fn wrap_line_with_spans(
         &self,
         line: &str,
@@ -657,179 +657,91 @@ impl Content {
         width: usize,
         spans: &[InternalSpan],
     ) -> Vec<Strip> {
-        let mut result = Vec::new();
-        let mut current_width = 0;
-
-        // Process word by word
-        let words: Vec<&str> = line.split_whitespace().collect();
-        let mut word_positions: Vec<(usize, usize)> = Vec::new(); // (start, end) byte positions
-
-        // Find byte positions of each word in the line
-        let mut search_start = 0;
-        for word in &words {
-            if let Some(pos) = line[search_start..].find(word) {
-                let abs_pos = search_start + pos;
-                word_positions.push((abs_pos, abs_pos + word.len()));
-                search_start = abs_pos + word.len();
-            }
-        }
-
-        let mut current_segment_start = 0;
-        let mut i = 0;
-
-        while i < words.len() {
-            let word = words[i];
-            let word_width = display_width(word);
-
-            if current_width == 0 {
-                // Start of line
-                if word_width <= width {
-                    current_width = word_width;
-                    i += 1;
-                } else {
-                    // Word too long, need to break it - use the simple approach for now
-                    let (word_byte_start, word_byte_end) = word_positions[i];
-                    let segment_text = &line[word_byte_start..word_byte_end];
-                    let abs_start = line_start + word_byte_start;
-                    let abs_end = line_start + word_byte_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-                    current_segment_start = if i + 1 < word_positions.len() {
-                        word_positions[i + 1].0
-                    } else {
-                        line.len()
-                    };
-                    current_width = 0;
-                    i += 1;
-                }
-            } else {
-                let space_and_word = 1 + word_width;
-                if current_width + space_and_word <= width {
-                    // Word fits
-                    current_width += space_and_word;
-                    i += 1;
-                } else {
-                    // Word doesn't fit, emit current segment
-                    let segment_end = if i > 0 { word_positions[i - 1].1 } else { 0 };
-                    let segment_text = &line[current_segment_start..segment_end];
-                    let abs_start = line_start + current_segment_start;
-                    let abs_end = line_start + segment_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-
-                    // Start new segment at this word
-                    current_segment_start = word_positions[i].0;
-                    current_width = 0;
-                }
-            }
-        }
-
-        // Emit final segment
-        if current_width > 0 && !words.is_empty() {
-            let segment_end = word_positions.last().map(|(_, e)| *e).unwrap_or(line.len());
-            let segment_text = &line[current_segment_start..segment_end];
-            if !segment_text.is_empty() {
-                let abs_start = line_start + current_segment_start;
-                let abs_end = line_start + segment_end;
-                let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                result.push(strip);
-            }
-        }
-
-        result
+        wrap_ranges(line, width)
+            .into_iter()
+            .map(|(start, end)| {
+                self.render_line_with_spans(
+                    &line[start..end],
+                    line_start + start,
+                    line_start + end,
+                    spans,
+                )
+            })
+            .collect()
     }
 
-    /// Wraps a single line to the given width.
+    /// Wrap a single line to the given width.
     fn wrap_line(&self, line: &str, width: usize) -> Vec<Strip> {
-        let mut result = Vec::new();
-        let mut current_line = String::new();
-        let mut current_width = 0;
-
-        for word in line.split_whitespace() {
-            let word_width = display_width(word);
-
-            if current_width == 0 {
-                // Start of line
-                if word_width <= width {
-                    current_line = word.to_string();
-                    current_width = word_width;
-                } else {
-                    // Word is too long, need to break it
-                    result.extend(self.break_word(word, width));
+        wrap_ranges(line, width)
+            .into_iter()
+            .map(|(start, end)| {
+                let text = &line[start..end];
+                if text.is_empty() {
+                    return Strip::new();
                 }
-            } else if current_width + 1 + word_width <= width {
-                // Word fits with space
-                current_line.push(' ');
-                current_line.push_str(word);
-                current_width += 1 + word_width;
-            } else {
-                // Word doesn't fit, emit current line and start new
-                let segment = match &self.style {
-                    Some(s) => Segment::styled(&current_line, s.clone()),
-                    None => Segment::new(&current_line),
-                };
-                result.push(Strip::from_segment(segment));
+                Strip::from_segment(match &self.style {
+                    Some(s) => Segment::styled(text, s.clone()),
+                    None => Segment::new(text),
+                })
+            })
+            .collect()
+    }
+}
 
-                if word_width <= width {
-                    current_line = word.to_string();
-                    current_width = word_width;
-                } else {
-                    current_line.clear();
-                    current_width = 0;
-                    result.extend(self.break_word(word, width));
-                }
-            }
+/// Byte ranges of the lines a single line of text wraps to.
+///
+/// Lines break at whitespace, which is dropped at the break and kept everywhere
+/// else. A word wider than `width` is broken between graphemes.
+fn wrap_ranges(line: &str, width: usize) -> Vec<(usize, usize)> {
+    if display_width(line) <= width {
+        return vec![(0, line.len())];
+    }
+
+    let mut ranges = Vec::new();
+    // The line being filled, as (start, end) byte positions
+    let mut current: Option<(usize, usize)> = None;
+    let mut pos = 0;
+
+    for word in line.split_whitespace() {
+        let start = pos + line[pos..].find(word).unwrap_or(0);
+        let end = start + word.len();
+        pos = end;
+
+        // Leading whitespace stays with the first word if both fit
+        let line_start = current.map_or(if ranges.is_empty() { 0 } else { start }, |(s, _)| s);
+        if display_width(&line[line_start..end]) <= width {
+            current = Some((line_start, end));
+            continue;
         }
+        ranges.extend(current.take());
 
-        // Emit final line
-        if !current_line.is_empty() {
-            let segment = match &self.style {
-                Some(s) => Segment::styled(&current_line, s.clone()),
-                None => Segment::new(&current_line),
-            };
-            result.push(Strip::from_segment(segment));
+        if display_width(word) <= width {
+            current = Some((start, end));
+            continue;
         }
 
-        result
-    }
-
-    /// Breaks a word that is longer than the available width.
-    fn break_word(&self, word: &str, width: usize) -> Vec<Strip> {
-        let mut result = Vec::new();
-        let mut current = String::new();
-        let mut current_width = 0;
-
-        for grapheme in graphemes(word) {
+        // Word is too long, need to break it
+        let mut part_start = start;
+        let mut part_width = 0;
+        for (offset, grapheme) in grapheme_indices(word) {
             let grapheme_width = display_width(grapheme);
-
-            if current_width + grapheme_width <= width {
-                current.push_str(grapheme);
-                current_width += grapheme_width;
-            } else {
-                if !current.is_empty() {
-                    let segment = match &self.style {
-                        Some(s) => Segment::styled(&current, s.clone()),
-                        None => Segment::new(&current),
-                    };
-                    result.push(Strip::from_segment(segment));
-                }
-                current = grapheme.to_string();
-                current_width = grapheme_width;
+            let at = start + offset;
+            if part_width + grapheme_width > width && at > part_start {
+                ranges.push((part_start, at));
+                part_start = at;
+                part_width = 0;
             }
+            part_width += grapheme_width;
         }
+        ranges.push((part_start, end));
+    }
 
-        if !current.is_empty() {
-            let segment = match &self.style {
-                Some(s) => Segment::styled(&current, s.clone()),
-                None => Segment::new(&current),
-            };
-            result.push(Strip::from_segment(segment));
-        }
-
-        result
+    ranges.extend(current);
+    if ranges.is_empty() {
+        // Only whitespace
+        ranges.push((0, 0));
     }
+    ranges
 }
 
 fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
@@ -840,12 +752,24 @@ fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
     if total == 0 {
         return vec![Strip::new()];
     }
+    // Cut between graphemes, so that no wide character is cut in half
+    let mut cuts = vec![0];
+    let mut last = 0;
+    let mut cell = 0;
+    for segment in strip.segments() {
+        for (_, grapheme) in grapheme_indices(segment.text()) {
+            let next = cell + display_width(grapheme);
+            if next - last > width && cell > last {
+                cuts.push(cell);
+                last = cell;
+            }
+            cell = next;
+        }
+    }
+    cuts.push(total);
     let mut parts = Vec::new();
-    let mut start = 0;
-    while start < total {
-        let end = (start + width).min(total);
-        parts.push(strip.crop(start, end));
-        start = end;
+    for pair in cuts.windows(2) {
+        parts.push(strip.crop(pair[0], pair[1]));
     }
     parts
 }
-- 
2.43.0


From 241d8dfcf84898197aadb591c4ebc379c5f7be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:48 +0000
Subject: [PATCH 18/69] fix: size the canvas without overflowing on very large
 terminals

---
 crates/textual/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 0292538..4bc9cdb 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -140,7 +140,7 @@ impl Canvas {
             bg: None,
             attrs: TextAttributes::default(),
         };
-        let cell_count = (width * height) as usize;
+        let cell_count = width as usize * height as usize;
         Self {
             size: Size { width, height },
             cells: vec![blank_cell.clone(); cell_count],
-- 
2.43.0


From 0fba658909aaa70cc8e400c12e1c73f0cd8db2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:04 +0000
Subject: [PATCH 19/69] fix: never leave half a wide character or a control
 character on the canvas

---
 crates/textual/src/canvas.rs | 44 ++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 4bc9cdb..176f914 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -271,18 +271,22 @@ impl Canvas {
             return;
         }
 
-        if x < clip.x || x >= clip.x + clip.width {
-            return;
-        }
-        if x < 0 || x >= self.size.width as i32 {
+        // Control characters and stray combining marks occupy no cell
+        if width == 0 {
             return;
         }
 
-        let end_x = x + width as i32;
-        if end_x > clip.x + clip.width {
+        let left = clip.x.max(0);
+        let right = (clip.x + clip.width).min(self.size.width as i32);
+        let end_x = x.saturating_add(width as i32);
+        if end_x <= left || x >= right {
             return;
         }
-        if end_x > self.size.width as i32 {
+        if x < left || end_x > right {
+            // A wide character cut by the clip edge leaves blanks in its visible part
+            for cx in x.max(left)..end_x.min(right) {
+                self.put_grapheme(cx, y, " ", 1, fg, bg, attrs, clip);
+            }
             return;
         }
 
@@ -299,6 +303,10 @@ impl Canvas {
                 self.cells[index].bg = Some(bg);
             }
         } else {
+            self.split_wide_at(index);
+            if end_x < self.size.width as i32 {
+                self.split_wide_at(index + width);
+            }
             self.cells[index] = Cell {
                 symbol: grapheme.to_string(),
                 width: width as u8,
@@ -336,6 +344,28 @@ impl Canvas {
         }
     }
 
+    /// Blanks the wide character covering both the cell at `index` and the one before it,
+    /// so that overwriting one of its halves does not leave the other half behind.
+    fn split_wide_at(&mut self, index: usize) {
+        if !self.cells[index].continuation {
+            return;
+        }
+        let blank = |cell: &mut Cell| {
+            cell.symbol = " ".to_string();
+            cell.width = 1;
+            cell.continuation = false;
+        };
+        let mut start = index;
+        while start > 0 && self.cells[start].continuation {
+            start -= 1;
+        }
+        let mut end = index;
+        while end < self.cells.len() && self.cells[end].continuation {
+            end += 1;
+        }
+        self.cells[start..end].iter_mut().for_each(blank);
+    }
+
     /// Renders a Strip at the given position.
     ///
     /// Iterates through each segment in the strip and renders its text
-- 
2.43.0


From 1ef9e1ab9c49c4163020455c40a727fc355a1c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:25 +0000
Subject: [PATCH 20/69] fix: show control characters as blanks instead of
 sending them to the terminal

---
 crates/textual/src/canvas.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 176f914..602db46 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -271,7 +271,7 @@ impl Canvas {
             return;
         }
 
-        // Control characters and stray combining marks occupy no cell
+        // Stray combining marks and other zero-width characters occupy no cell
         if width == 0 {
             return;
         }
@@ -282,8 +282,9 @@ impl Canvas {
         if end_x <= left || x >= right {
             return;
         }
-        if x < left || end_x > right {
-            // A wide character cut by the clip edge leaves blanks in its visible part
+        if x < left || end_x > right || grapheme.contains(char::is_control) {
+            // A wide character cut by the clip edge leaves blanks in its visible part, and a
+            // control character must not reach the terminal, so it shows as a blank
             for cx in x.max(left)..end_x.min(right) {
                 self.put_grapheme(cx, y, " ", 1, fg, bg, attrs, clip);
             }
-- 
2.43.0


From 734d671182db4dbe70d907e50bc824a3676ac3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 21/69] fix: export unstyled text at the end of a line to SVG

---
 crates/textual/src/svg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/svg.rs b/crates/textual/src/svg.rs
index d34615d..ecd86e5 100644
--- a/crates/textual/src/svg.rs
+++ b/crates/textual/src/svg.rs
@@ -277,7 +277,9 @@ impl SvgRenderer {
 
                 // Check if we need to flush the current run
                 let style_changed = current_fg != run_fg || current_attrs != run_attrs;
-                if style_changed && !run_text.is_empty() {
+                // The sentinel looks unstyled, so it does not end an unstyled run by itself
+                let line_ended = x == width as i32 && !run_text.trim().is_empty();
+                if (style_changed || line_ended) && !run_text.is_empty() {
                     let x_pos = (run_start as f32) * self.config.char_width;
                     let text_length = (run_cells as f32) * self.config.char_width;
                     let class_name = run_fg
-- 
2.43.0


From 670931c9a68fd9c3678732032963a647564eb531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 22/69] fix: divide the height left in the parent, not the
 terminal's, among fr children

---
 crates/textual/src/layouts/vertical.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 4571ff6..59919fb 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -130,9 +130,8 @@ impl Layout for VerticalLayout {
                         fixed_height_total += css_height as f64;
                     }
                     Unit::Percent | Unit::Height => {
-                        // Python uses parent.app.size (terminal size) for these units
-                        // So we use viewport, not available region
-                        let raw = (height.value / 100.0) * viewport.height as f64;
+                        // Percentages are of the parent, as in the second pass
+                        let raw = (height.value / 100.0) * available.height as f64;
                         fixed_height_total += raw;
                     }
                     Unit::Width => {
@@ -162,9 +161,8 @@ impl Layout for VerticalLayout {
         }
 
         // Calculate remaining space for fr units
-        // Use viewport.height to match Python's behavior (uses parent.app.size for all calculations)
         let remaining_for_fr =
-            (viewport.height as f64 - fixed_height_total - total_margin).max(0.0);
+            (available.height as f64 - fixed_height_total - total_margin).max(0.0);
 
         // Calculate fraction_unit (size of 1fr)
         // When remaining_for_fr <= 0, use fraction_unit = 1.0 (matching Python Textual)
-- 
2.43.0


From ef5355cc01d8ae6ce4b37b3d183bf2ea39d83f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:59 +0000
Subject: [PATCH 23/69] fix: do not subtract the margins of an fr child from
 its share twice

---
 crates/textual/src/layouts/vertical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 59919fb..b5f355f 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -260,8 +260,8 @@ impl Layout for VerticalLayout {
             // For percentage/fill heights, reduce by margins to fit within container
             // For explicit heights (cells), margins are outside the content box
             let should_reduce_by_margins = match &child_style.height {
-                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height | Unit::Fraction),
-                None => desired_size.height == u16::MAX, // fill case
+                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height),
+                None => false,
             };
             let box_height = if should_reduce_by_margins {
                 (box_height - margin_top - margin_bottom).max(0.0)
-- 
2.43.0


From 5f1979a1a0b34d0251a16ff77e73ce85331284c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:23 +0000
Subject: [PATCH 24/69] fix: size fr rows by what their constrained siblings
 leave, and resolve w, h, vw and vh widths in vertical layouts

---
 crates/textual/src/layouts/vertical.rs | 206 +++++++++++--------------
 1 file changed, 86 insertions(+), 120 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index b5f355f..bc579f5 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -9,9 +9,11 @@
 
 use crate::canvas::{Region, Size};
 use tcss::types::ComputedStyle;
-use tcss::types::geometry::Unit;
+use tcss::types::geometry::{Scalar, Unit};
 
-use super::size_resolver::{apply_box_sizing_height, resolve_width_with_intrinsic};
+use super::size_resolver::{
+    apply_box_sizing_height, apply_box_sizing_width, resolve_width_with_intrinsic,
+};
 use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 
 /// Vertical layout - stacks children top-to-bottom.
@@ -32,7 +34,13 @@ fn resolve_child_width(
     let margin_right = child_style.margin.right.value as i32;
 
     // Resolve base width
-    let base_width = resolve_width_with_intrinsic(child_style, desired_size.width, available.width);
+    let base_width = match &child_style.width {
+        Some(w) if w.unit == Unit::Cells => apply_box_sizing_width(w.value as i32, child_style),
+        Some(w) if !matches!(w.unit, Unit::Percent | Unit::Auto | Unit::Fraction) => {
+            resolve_length(w, available, viewport).round() as i32
+        }
+        _ => resolve_width_with_intrinsic(child_style, desired_size.width, available.width),
+    };
     let should_reduce_by_margins = match &child_style.width {
         Some(w) => matches!(
             w.unit,
@@ -84,6 +92,35 @@ fn resolve_child_width(
     }
 }
 
+/// Resolves a length relative to the parent or the viewport (cells and other units as they are).
+fn resolve_length(length: &Scalar, available: Region, viewport: Viewport) -> f64 {
+    let basis = match length.unit {
+        Unit::Percent | Unit::Height => available.height,
+        Unit::Width => available.width,
+        Unit::ViewWidth => viewport.width,
+        Unit::ViewHeight => viewport.height,
+        _ => return length.value,
+    };
+    (length.value / 100.0) * basis as f64
+}
+
+/// Applies the max-height and then the min-height constraint.
+fn constrain_height(
+    height: f64,
+    style: &ComputedStyle,
+    available: Region,
+    viewport: Viewport,
+) -> f64 {
+    let height = match &style.max_height {
+        Some(max_h) => height.min(resolve_length(max_h, available, viewport)),
+        None => height,
+    };
+    match &style.min_height {
+        Some(min_h) => height.max(resolve_length(min_h, available, viewport)),
+        None => height,
+    }
+}
+
 impl Layout for VerticalLayout {
     fn arrange(
         &mut self,
@@ -101,14 +138,14 @@ impl Layout for VerticalLayout {
         let mut total_margin: f64 = 0.0;
         let mut prev_margin_bottom: f64 = 0.0;
 
+        // Heights of the children that do not share the remaining space
+        let mut fixed_heights: Vec<Option<f64>> = Vec::with_capacity(children.len());
+
         for (i, child) in children.iter().enumerate() {
             let child_style = &child.style;
             let desired_size = child.desired_size;
             let margin_top = child_style.margin.top.value as f64;
             let margin_bottom = child_style.margin.bottom.value as f64;
-            let child_width = resolve_child_width(child_style, desired_size, available, viewport);
-            let width_u16 = child_width.clamp(0, u16::MAX as i32) as u16;
-            let intrinsic_height = child.node.intrinsic_height_for_width(width_u16) as f64;
 
             // CSS margin collapsing
             let effective_top_margin = if i == 0 {
@@ -119,45 +156,45 @@ impl Layout for VerticalLayout {
             total_margin += effective_top_margin + margin_bottom;
             prev_margin_bottom = margin_bottom;
 
-            if let Some(height) = &child_style.height {
-                match height.unit {
-                    Unit::Fraction => {
-                        total_fr += height.value;
-                    }
-                    Unit::Cells => {
-                        // Cells are exact integers, apply box-sizing
-                        let css_height = apply_box_sizing_height(height.value as i32, child_style);
-                        fixed_height_total += css_height as f64;
-                    }
-                    Unit::Percent | Unit::Height => {
-                        // Percentages are of the parent, as in the second pass
-                        let raw = (height.value / 100.0) * available.height as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::Width => {
-                        // Python uses parent.app.size (terminal size) for w units
-                        let raw = (height.value / 100.0) * viewport.width as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::ViewWidth => {
-                        let raw = (height.value / 100.0) * viewport.width as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::ViewHeight => {
-                        let raw = (height.value / 100.0) * viewport.height as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::Auto => {
-                        fixed_height_total += intrinsic_height;
-                    }
+            let fixed_height = match &child_style.height {
+                Some(h) if h.unit == Unit::Fraction => {
+                    total_fr += h.value;
+                    None
+                }
+                Some(h) if h.unit == Unit::Cells => {
+                    // Cells are exact integers, apply box-sizing
+                    Some(apply_box_sizing_height(h.value as i32, child_style) as f64)
+                }
+                Some(h) if h.unit == Unit::Auto => {
+                    let width = resolve_child_width(child_style, desired_size, available, viewport);
+                    let width_u16 = width.clamp(0, u16::MAX as i32) as u16;
+                    Some(child.node.intrinsic_height_for_width(width_u16) as f64)
+                }
+                Some(h) if h.unit == Unit::Width => {
+                    // Python uses parent.app.size (terminal size) for w units
+                    Some((h.value / 100.0) * viewport.width as f64)
+                }
+                Some(h) => {
+                    let height = resolve_length(h, available, viewport);
+                    // Percentages of the parent include the margins, so that they fit in it
+                    Some(if matches!(h.unit, Unit::Percent | Unit::Height) {
+                        (height - margin_top - margin_bottom).max(0.0)
+                    } else {
+                        height
+                    })
+                }
+                None if desired_size.height == u16::MAX => {
+                    // No CSS height but widget wants to fill - treat as 1fr
+                    total_fr += 1.0;
+                    None
                 }
-            } else if desired_size.height == u16::MAX {
-                // No CSS height but widget wants to fill - treat as 1fr
-                total_fr += 1.0;
-            } else {
                 // No height specified - use desired size
-                fixed_height_total += desired_size.height as f64;
-            }
+                None => Some(desired_size.height as f64),
+            };
+            let fixed_height =
+                fixed_height.map(|h| constrain_height(h, child_style, available, viewport));
+            fixed_height_total += fixed_height.unwrap_or(0.0);
+            fixed_heights.push(fixed_height);
         }
 
         // Calculate remaining space for fr units
@@ -186,89 +223,18 @@ impl Layout for VerticalLayout {
 
             // Resolve width
             let width = resolve_child_width(child_style, desired_size, available, viewport);
-            let width_u16 = width.clamp(0, u16::MAX as i32) as u16;
-
-            // Resolve box_model height as f64 (keeping fractional precision)
-            // This must match the calculation in the first pass
-            let box_height: f64 = if let Some(h) = &child_style.height {
-                match h.unit {
-                    Unit::Fraction => {
-                        // fr units use fraction_unit
-                        h.value * fraction_unit
-                    }
-                    Unit::Auto => child.node.intrinsic_height_for_width(width_u16) as f64,
-                    Unit::Cells => {
-                        // Cells are exact integers
-                        apply_box_sizing_height(h.value as i32, child_style) as f64
-                    }
-                    Unit::Percent | Unit::Height => {
-                        // For percentage heights, use available.height (parent container)
-                        // This ensures height: 100% fills the parent, not the viewport
-                        (h.value / 100.0) * available.height as f64
-                    }
-                    Unit::Width => {
-                        // Python uses parent.app.size (terminal size) for w units
-                        (h.value / 100.0) * viewport.width as f64
-                    }
-                    Unit::ViewWidth => (h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (h.value / 100.0) * viewport.height as f64,
-                }
-            } else if desired_size.height == u16::MAX {
-                // No CSS height but widget wants to fill - use fraction_unit (implicit 1fr)
-                fraction_unit
-            } else {
-                // No CSS height - use intrinsic height
-                desired_size.height as f64
-            };
-
-            // Apply max-height constraint
-            let box_height = if let Some(max_h) = &child_style.max_height {
-                let max_height_value = match max_h.unit {
-                    Unit::Cells => max_h.value,
-                    Unit::Percent => (max_h.value / 100.0) * available.height as f64,
-                    Unit::Width => (max_h.value / 100.0) * available.width as f64,
-                    Unit::Height => (max_h.value / 100.0) * available.height as f64,
-                    Unit::ViewWidth => (max_h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (max_h.value / 100.0) * viewport.height as f64,
-                    _ => max_h.value,
-                };
-                box_height.min(max_height_value)
-            } else {
-                box_height
-            };
 
-            // Apply min-height constraint (floor)
-            let box_height = if let Some(min_h) = &child_style.min_height {
-                let min_height_value = match min_h.unit {
-                    Unit::Cells => min_h.value,
-                    Unit::Percent => (min_h.value / 100.0) * available.height as f64,
-                    Unit::Width => (min_h.value / 100.0) * available.width as f64,
-                    Unit::Height => (min_h.value / 100.0) * available.height as f64,
-                    Unit::ViewWidth => (min_h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (min_h.value / 100.0) * viewport.height as f64,
-                    _ => min_h.value,
-                };
-                box_height.max(min_height_value)
-            } else {
-                box_height
-            };
+            // Box heights are kept as f64 (keeping fractional precision)
+            let box_height = fixed_heights[i].unwrap_or_else(|| {
+                // fr units use fraction_unit, and filling is an implicit 1fr
+                let fr = child_style.height.as_ref().map_or(1.0, |h| h.value);
+                constrain_height(fr * fraction_unit, child_style, available, viewport)
+            });
 
             // Get vertical margins
             let margin_top = child_style.margin.top.value as f64;
             let margin_bottom = child_style.margin.bottom.value as f64;
 
-            // For percentage/fill heights, reduce by margins to fit within container
-            // For explicit heights (cells), margins are outside the content box
-            let should_reduce_by_margins = match &child_style.height {
-                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height),
-                None => false,
-            };
-            let box_height = if should_reduce_by_margins {
-                (box_height - margin_top - margin_bottom).max(0.0)
-            } else {
-                box_height
-            };
-
             // CSS margin collapsing
             let effective_top_margin = if i == 0 {
                 margin_top
-- 
2.43.0


From f1e963889cdd5583a869f6bf8a2ed336d37ed7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:27 +0000
Subject: [PATCH 25/69] fix: size fr columns by what their constrained siblings
 leave, and resolve explicit heights in horizontal layouts

---
 crates/textual/src/layouts/horizontal.rs | 116 ++++++++++++-----------
 1 file changed, 60 insertions(+), 56 deletions(-)

diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 5840dfc..bf7071b 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -3,7 +3,7 @@
 use crate::canvas::Region;
 use crate::fraction::Fraction;
 use tcss::types::ComputedStyle;
-use tcss::types::geometry::Unit;
+use tcss::types::geometry::{Scalar, Unit};
 
 use super::size_resolver::{apply_box_sizing_height, apply_box_sizing_width, horizontal_chrome};
 use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
@@ -16,6 +16,37 @@ use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 #[derive(Debug, Clone, Copy, Default)]
 pub struct HorizontalLayout;
 
+/// Resolves a length relative to the parent or the viewport (cells and other units as they are).
+fn resolve_length(length: &Scalar, percent_of: i32, available: Region, viewport: Viewport) -> i32 {
+    let basis = match length.unit {
+        Unit::Percent => percent_of,
+        Unit::Width => available.width,
+        Unit::Height => available.height,
+        Unit::ViewWidth => viewport.width,
+        Unit::ViewHeight => viewport.height,
+        _ => return length.value as i32,
+    };
+    ((length.value / 100.0) * basis as f64) as i32
+}
+
+/// Applies the max-width and then the min-width constraint.
+fn constrain_width(
+    width: i32,
+    style: &ComputedStyle,
+    available: Region,
+    viewport: Viewport,
+) -> i32 {
+    let resolve = |length: &Scalar| resolve_length(length, available.width, available, viewport);
+    let width = style
+        .max_width
+        .as_ref()
+        .map_or(width, |max| width.min(resolve(max)));
+    style
+        .min_width
+        .as_ref()
+        .map_or(width, |min| width.max(resolve(min)))
+}
+
 impl Layout for HorizontalLayout {
     fn arrange(
         &mut self,
@@ -146,6 +177,8 @@ impl Layout for HorizontalLayout {
             };
 
             if let Some(width) = resolved_fixed {
+                // Constrained widths are what the fr widths have to make room for
+                let width = constrain_width(width, child_style, available, viewport);
                 fixed_widths[i] = Some(width);
                 fixed_width_sum += width;
             }
@@ -185,38 +218,9 @@ impl Layout for HorizontalLayout {
             let child_index = child.index;
             let child_style = &child.style;
             // Resolve width from precomputed fixed/fr allocations.
-            let width = fixed_widths[i].unwrap_or(fr_widths[i]);
-
-            // Apply max-width constraint
-            let width = if let Some(max_w) = &child_style.max_width {
-                let max_width_value = match max_w.unit {
-                    Unit::Cells => max_w.value as i32,
-                    Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
-                    _ => max_w.value as i32,
-                };
-                width.min(max_width_value)
-            } else {
-                width
-            };
-
-            // Apply min-width constraint (floor)
-            let width = if let Some(min_w) = &child_style.min_width {
-                let min_width_value = match min_w.unit {
-                    Unit::Cells => min_w.value as i32,
-                    Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
-                    _ => min_w.value as i32,
-                };
-                width.max(min_width_value)
-            } else {
-                width
+            let width = match fixed_widths[i] {
+                Some(width) => width,
+                None => constrain_width(fr_widths[i], child_style, available, viewport),
             };
 
             // Resolve height - horizontal layout children fill available height by default
@@ -238,8 +242,8 @@ impl Layout for HorizontalLayout {
                         apply_box_sizing_height(css_height, child_style)
                     }
                     _ => {
-                        // Other units - use value as-is with box-sizing
-                        apply_box_sizing_height(h.value as i32, child_style)
+                        let css_height = resolve_length(h, available.height, available, viewport);
+                        apply_box_sizing_height(css_height, child_style)
                     }
                 }
             } else {
@@ -247,6 +251,26 @@ impl Layout for HorizontalLayout {
                 available.height
             };
 
+            // Get margins for positioning
+            let margin_left = child_style.margin.left.value as i32;
+            let margin_right = child_style.margin.right.value as i32;
+            let margin_top = child_style.margin.top.value as i32;
+            let margin_bottom = child_style.margin.bottom.value as i32;
+
+            // For height: auto (intrinsic) and explicit heights, use the height as-is: margins are outside.
+            // For other heights (percentages/fill/fr), reduce by vertical margins to fit within container.
+            let is_own_height = child_style
+                .height
+                .as_ref()
+                .map(|h| matches!(h.unit, Unit::Auto | Unit::Cells))
+                .unwrap_or(false);
+            let height = if is_own_height {
+                height // Use intrinsic or explicit height directly
+            } else {
+                // Fill available: reduce by margins to prevent overflow
+                (height - margin_top - margin_bottom).max(0)
+            };
+
             // Apply max-height constraint
             let height = if let Some(max_h) = &child_style.max_height {
                 let max_height_value = match max_h.unit {
@@ -279,12 +303,6 @@ impl Layout for HorizontalLayout {
                 height
             };
 
-            // Get margins for positioning
-            let margin_left = child_style.margin.left.value as i32;
-            let margin_right = child_style.margin.right.value as i32;
-            let margin_top = child_style.margin.top.value as i32;
-            let margin_bottom = child_style.margin.bottom.value as i32;
-
             // CSS margin collapsing: use max of adjacent margins, not sum
             let effective_left_margin = if i == 0 {
                 margin_left
@@ -294,27 +312,13 @@ impl Layout for HorizontalLayout {
 
             current_x += effective_left_margin;
 
-            // For height: auto (intrinsic), use the height as-is since it's the content height.
-            // For other heights (fill/fr), reduce by vertical margins to fit within container.
-            let is_auto_height = child_style
-                .height
-                .as_ref()
-                .map(|h| h.unit == Unit::Auto)
-                .unwrap_or(false);
-            let adjusted_height = if is_auto_height {
-                height // Use intrinsic height directly
-            } else {
-                // Fill available: reduce by margins to prevent overflow
-                (height - margin_top - margin_bottom).max(0)
-            };
-
             placements.push(WidgetPlacement {
                 child_index,
                 region: Region {
                     x: current_x,
                     y: available.y + margin_top,
                     width,
-                    height: adjusted_height,
+                    height,
                 },
             });
 
-- 
2.43.0


From fe95ff77ac4f0bb620db5d976bca366e433e0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:27 +0000
Subject: [PATCH 26/69] fix: stack undeclared layers in a deterministic order

---
 crates/textual/src/layouts/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 5c559b5..569c3b7 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -815,6 +815,8 @@ fn build_layers<'a>(
 
     // Group children by their layer
     let mut layer_map: HashMap<String, Vec<&LayoutChild>> = HashMap::new();
+    // Layer names in order of first appearance, so that the result does not depend on hashing
+    let mut names: Vec<String> = Vec::new();
 
     for child in children {
         let layer_name = child
@@ -822,6 +824,9 @@ fn build_layers<'a>(
             .layer
             .clone()
             .unwrap_or_else(|| "default".to_string());
+        if !layer_map.contains_key(&layer_name) {
+            names.push(layer_name.clone());
+        }
         layer_map.entry(layer_name).or_default().push(child);
     }
 
@@ -829,9 +834,9 @@ fn build_layers<'a>(
 
     // First: add widgets on layers NOT in layer_order (they render at the bottom)
     // This matches Python where undefined layers default to index 0 (bottom-most)
-    for (name, widgets) in layer_map.iter() {
+    for name in &names {
         if !layer_order.contains(name) {
-            result.push((name.clone(), widgets.clone()));
+            result.push((name.clone(), layer_map[name].clone()));
         }
     }
 
-- 
2.43.0


From ea8472d9129bded3c30025dce6ed509a588ddb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:42 +0000
Subject: [PATCH 27/69] fix: give a grid without explicit rows as many rows as
 its spanning children need

---
 crates/textual/src/layouts/grid.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index ba10c2d..55d64e0 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -121,13 +121,22 @@ impl GridLayout {
     }
 
     /// Get the number of rows, either from CSS or calculated.
-    fn row_count(&self, grid: &GridStyle, cols: usize, child_count: usize) -> usize {
+    fn row_count(&self, grid: &GridStyle, cols: usize, children: &[LayoutChild]) -> usize {
         if let Some(rows) = grid.rows {
             rows as usize
         } else if cols == 0 {
             1
         } else {
-            (child_count + cols - 1) / cols
+            // As many rows as the children occupy with their spans
+            let max_rows = children
+                .iter()
+                .map(|child| (child.style.grid_placement.row_span as usize).max(1))
+                .sum();
+            Self::compute_cell_assignments(children, max_rows, cols)
+                .iter()
+                .map(|(row, _, row_span, _)| row + row_span)
+                .max()
+                .unwrap_or(1)
         }
     }
 
@@ -436,7 +445,7 @@ impl GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
         let gutter_h = Self::resolve_scalar(&grid.gutter.1, available.width);
@@ -591,7 +600,7 @@ impl Layout for GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         // Get gutter values
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
-- 
2.43.0


From 872ad174edec740853b8b6bdd5a776d45c922511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:43 +0000
Subject: [PATCH 28/69] fix: do not lose a row of an fr layout to floating
 point rounding

---
 crates/textual/src/layouts/vertical.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index bc579f5..fee38e5 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -121,6 +121,11 @@ fn constrain_height(
     }
 }
 
+/// Rounds a position down to a row, without losing the row to accumulated rounding errors.
+fn floor_row(y: f64) -> i32 {
+    (y + 1e-6).floor() as i32
+}
+
 impl Layout for VerticalLayout {
     fn arrange(
         &mut self,
@@ -247,8 +252,8 @@ impl Layout for VerticalLayout {
             // Calculate next_y and region height using floor arithmetic
             // This matches Python: region.height = floor(next_y) - floor(y)
             let next_y = current_y + box_height;
-            let region_y = current_y.floor() as i32;
-            let region_height = (next_y.floor() as i32 - region_y).max(0);
+            let region_y = floor_row(current_y);
+            let region_height = (floor_row(next_y) - region_y).max(0);
 
             let new_region = Region {
                 x: available.x + margin_left,
-- 
2.43.0


From 02d83d1140f7a653edd97cc6e89c06a4ab996975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:04 +0000
Subject: [PATCH 29/69] fix: place the widgets of a layer declared twice only
 once

---
 crates/textual/src/layouts/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 569c3b7..d869bad 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -842,8 +842,9 @@ fn build_layers<'a>(
 
     // Then: add explicitly defined layers in order (later = on top)
     for name in layer_order {
-        if let Some(widgets) = layer_map.get(name) {
-            result.push((name.clone(), widgets.clone()));
+        // Taken out of the map, so that a name declared twice does not place its widgets twice
+        if let Some(widgets) = layer_map.remove(name) {
+            result.push((name.clone(), widgets));
         }
     }
 
-- 
2.43.0


From d96ab0fb0c5fe0e476aebc16b9a45df3fb674cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:04 +0000
Subject: [PATCH 30/69] fix: never give docked widgets' siblings a negative
 region

---
 crates/textual/src/layouts/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index d869bad..542fcda 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -191,10 +191,12 @@ pub fn arrange_children_with_viewport(
         y: available.y + dock_spacing.top,
         width: available
             .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
+            .saturating_sub(dock_spacing.left + dock_spacing.right)
+            .max(0),
         height: available
             .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+            .saturating_sub(dock_spacing.top + dock_spacing.bottom)
+            .max(0),
     };
 
     // Run normal layout on remaining widgets
@@ -392,10 +394,12 @@ where
         y: available.y + dock_spacing.top,
         width: available
             .width
-            .saturating_sub(dock_spacing.left + dock_spacing.right),
+            .saturating_sub(dock_spacing.left + dock_spacing.right)
+            .max(0),
         height: available
             .height
-            .saturating_sub(dock_spacing.top + dock_spacing.bottom),
+            .saturating_sub(dock_spacing.top + dock_spacing.bottom)
+            .max(0),
     };
 
     // Run normal layout on remaining widgets
-- 
2.43.0


From ebe103cb64551e6d48946f6d14aef6a70f1cfaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:55 +0000
Subject: [PATCH 31/69] fix: find every fuzzy match, in polynomial time, and
 highlight the characters that matched

---
 crates/textual/src/fuzzy.rs | 162 ++++++++++++++++++++----------------
 1 file changed, 91 insertions(+), 71 deletions(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index d1858b0..3be09d5 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -24,83 +24,29 @@ impl FuzzySearch {
             return (0.0, Vec::new());
         }
 
-        let (query, candidate) = if self.case_sensitive {
-            (query.to_string(), candidate.to_string())
-        } else {
-            (query.to_lowercase(), candidate.to_lowercase())
-        };
+        let query_chars = self.fold(query);
+        let candidate_chars = self.fold(candidate);
+        let query_len = query_chars.len();
+        let candidate: String = candidate_chars.iter().collect();
 
         // Fast path: substring match.
-        if let Some(byte_index) = candidate.find(&query) {
-            let start = byte_to_char_index(&candidate, byte_index);
-            let query_len = query.chars().count();
+        if let Some(start) = candidate_chars
+            .windows(query_len)
+            .position(|window| window == query_chars)
+        {
             let offsets: Vec<usize> = (start..start + query_len).collect();
-            let score =
-                self.score(&candidate, &offsets) * if candidate == query { 2.0 } else { 1.5 };
+            let score = self.score(&candidate, &offsets)
+                * if candidate_chars == query_chars {
+                    2.0
+                } else {
+                    1.5
+                };
             return (score, offsets);
         }
 
-        let candidate_chars: Vec<char> = candidate.chars().collect();
-        let query_chars: Vec<char> = query.chars().collect();
-        let candidate_len = candidate_chars.len();
-
-        let mut letter_positions: Vec<Vec<usize>> = Vec::new();
-        let mut position = 0usize;
-
-        for (offset, letter) in query_chars.iter().enumerate() {
-            let last_index = candidate_len.saturating_sub(offset);
-            let mut positions = Vec::new();
-            let mut index = position;
-            while index < candidate_len {
-                if candidate_chars[index] == *letter {
-                    positions.push(index);
-                }
-                index += 1;
-                if index >= last_index {
-                    break;
-                }
-            }
-            if positions.is_empty() {
-                return (0.0, Vec::new());
-            }
-            position = positions[0] + 1;
-            letter_positions.push(positions);
-        }
-
-        let mut possible_offsets: Vec<Vec<usize>> = Vec::new();
-        let query_len = query_chars.len();
-
-        fn collect_offsets(
-            all_positions: &[Vec<usize>],
-            query_len: usize,
-            index: usize,
-            offsets: &mut Vec<usize>,
-            out: &mut Vec<Vec<usize>>,
-        ) {
-            for &pos in &all_positions[index] {
-                if offsets.last().map_or(true, |last| pos > *last) {
-                    offsets.push(pos);
-                    if offsets.len() == query_len {
-                        out.push(offsets.clone());
-                    } else {
-                        collect_offsets(all_positions, query_len, index + 1, offsets, out);
-                    }
-                    offsets.pop();
-                }
-            }
-        }
-
-        collect_offsets(
-            &letter_positions,
-            query_len,
-            0,
-            &mut Vec::new(),
-            &mut possible_offsets,
-        );
-
         let mut best_score = 0.0;
         let mut best_offsets = Vec::new();
-        for offsets in possible_offsets {
+        for offsets in best_offsets_by_groups(&query_chars, &candidate_chars, &candidate) {
             let score = self.score(&candidate, &offsets);
             if score > best_score {
                 best_score = score;
@@ -111,6 +57,22 @@ impl FuzzySearch {
         (best_score, best_offsets)
     }
 
+    /// Characters as they are compared. One output character per input
+    /// character, so that positions in the result are positions in the input.
+    fn fold(&self, text: &str) -> Vec<char> {
+        text.chars()
+            .map(|ch| {
+                if self.case_sensitive {
+                    return ch;
+                }
+                match ch.to_lowercase().next().unwrap_or(ch) {
+                    'ς' => 'σ',
+                    lower => lower,
+                }
+            })
+            .collect()
+    }
+
     fn score(&self, candidate: &str, positions: &[usize]) -> f32 {
         if positions.is_empty() {
             return 0.0;
@@ -212,8 +174,66 @@ fn first_letter_positions(candidate: &str) -> HashSet<usize> {
     positions
 }
 
-fn byte_to_char_index(s: &str, byte_index: usize) -> usize {
-    s[..byte_index].chars().count()
+/// For every number of contiguous groups the query can be split into, the
+/// positions matching the most first letters (the earliest ones on a tie).
+fn best_offsets_by_groups(query: &[char], candidate: &[char], text: &str) -> Vec<Vec<usize>> {
+    let (n, m) = (candidate.len(), query.len());
+    let mut rest = candidate.iter();
+    if !query.iter().all(|letter| rest.any(|ch| ch == letter)) {
+        return Vec::new();
+    }
+    let first_letters = first_letter_positions(text);
+    // best[i][g][p]: most first letters when query[i..] is matched in g groups,
+    // the first of them starting at p; reach[i][g][p]: the best of any start >= p.
+    let mut best = vec![vec![vec![None::<u16>; n + 1]; m + 2]; m + 1];
+    let mut reach = vec![vec![vec![None::<u16>; n + 2]; m + 2]; m + 1];
+    reach[m][0] = vec![Some(0); n + 2];
+    for i in (0..m).rev() {
+        for g in 1..=m - i {
+            for p in (0..n).rev() {
+                if candidate[p] == query[i] {
+                    let adjacent = if i + 1 < m {
+                        best[i + 1][g][p + 1]
+                    } else {
+                        None
+                    };
+                    let apart = if i + 1 < m {
+                        reach[i + 1][g - 1][p + 2]
+                    } else {
+                        reach[m][g - 1][p + 1]
+                    };
+                    best[i][g][p] = adjacent
+                        .max(apart)
+                        .map(|count| count + u16::from(first_letters.contains(&p)));
+                }
+                reach[i][g][p] = reach[i][g][p + 1].max(best[i][g][p]);
+            }
+        }
+    }
+
+    let mut found = Vec::new();
+    for groups in 1..=m {
+        let Some(mut count) = reach[0][groups][0] else {
+            continue;
+        };
+        let mut offsets = Vec::with_capacity(m);
+        let mut left = groups;
+        for i in 0..m {
+            let next = match offsets.last() {
+                Some(&last) if best[i][left][last + 1] == Some(count) => Some(last + 1),
+                Some(&last) => {
+                    left -= 1;
+                    (last + 2..n).find(|&p| best[i][left][p] == Some(count))
+                }
+                None => (0..n).find(|&p| best[i][left][p] == Some(count)),
+            };
+            let Some(p) = next else { break };
+            count -= u16::from(first_letters.contains(&p));
+            offsets.push(p);
+        }
+        found.push(offsets);
+    }
+    found
 }
 
 fn escape_markup(input: &str) -> String {
-- 
2.43.0


From 5ce4ba618438d82286ebc7de2b8cb096fda5b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:30 +0000
Subject: [PATCH 32/69] fix: forward focus, inline style, tooltip and mouse
 blocking through boxed widgets

---
 crates/textual/src/widget.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/textual/src/widget.rs b/crates/textual/src/widget.rs
index 5fe2d87..0869340 100644
--- a/crates/textual/src/widget.rs
+++ b/crates/textual/src/widget.rs
@@ -615,6 +615,38 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
         self.as_ref().get_meta()
     }
 
+    fn set_inline_style(&mut self, style: StyleOverride) {
+        self.as_mut().set_inline_style(style)
+    }
+
+    fn inline_style(&self) -> Option<&StyleOverride> {
+        self.as_ref().inline_style()
+    }
+
+    fn clear_inline_style(&mut self) {
+        self.as_mut().clear_inline_style()
+    }
+
+    fn tooltip(&self) -> Option<String> {
+        self.as_ref().tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.as_mut().set_tooltip(tooltip)
+    }
+
+    fn set_focus(&mut self, is_focused: bool) {
+        self.as_mut().set_focus(is_focused)
+    }
+
+    fn is_focused(&self) -> bool {
+        self.as_ref().is_focused()
+    }
+
+    fn blocks_mouse_events(&self) -> bool {
+        self.as_ref().blocks_mouse_events()
+    }
+
     fn is_dirty(&self) -> bool {
         self.as_ref().is_dirty()
     }
-- 
2.43.0


From 2770cd2fc599d76621f5a95742f1475d881c10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:30 +0000
Subject: [PATCH 33/69] fix: keep the input cursor inside the value when a
 character joins its neighbour

---
 crates/textual/src/widget/input.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 0957049..b9eb4cc 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -8,7 +8,9 @@ use tcss::types::Visibility;
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 
 use crate::canvas::{Canvas, Region};
-use crate::grapheme::{grapheme_byte_index, grapheme_byte_range, grapheme_count, graphemes};
+use crate::grapheme::{
+    grapheme_byte_index, grapheme_byte_range, grapheme_count, grapheme_indices, graphemes,
+};
 use crate::widget::static_widget::Static;
 use crate::{KeyCode, MouseEvent, Size, Widget};
 
@@ -170,7 +172,11 @@ impl<M> Input<M> {
         let cursor = self.cursor.min(grapheme_count(&self.value));
         let byte_index = grapheme_byte_index(&self.value, cursor);
         self.value.insert(byte_index, ch);
-        self.cursor = cursor + 1;
+        // The character may join a neighbouring grapheme instead of forming its own.
+        let inserted_end = byte_index + ch.len_utf8();
+        self.cursor = grapheme_indices(&self.value)
+            .take_while(|(start, _)| *start < inserted_end)
+            .count();
         self.refresh_display();
     }
 
-- 
2.43.0


From c070cfaab093db236917a09956da8263e3fed4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:30 +0000
Subject: [PATCH 34/69] fix: forget a button press that was released elsewhere

---
 crates/textual/src/widget/button.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/textual/src/widget/button.rs b/crates/textual/src/widget/button.rs
index 465a7cf..ed02ec2 100644
--- a/crates/textual/src/widget/button.rs
+++ b/crates/textual/src/widget/button.rs
@@ -514,6 +514,11 @@ Button {
             self.hovered = false;
             self.dirty = true;
         }
+        // The pointer moves without a button held: a press released elsewhere is over.
+        if self.active {
+            self.active = false;
+            self.dirty = true;
+        }
     }
 
     fn set_active(&mut self, is_active: bool) -> bool {
-- 
2.43.0


From 621ff3065adaaa48c1cfbd913d5f432fb9767c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:15 +0000
Subject: [PATCH 35/69] fix: lay out a container's children afresh instead of
 from a stale cache

The cached placements were keyed on the region and viewport only, so a child whose
content or display changed kept its old place until the container itself was restyled.
---
 crates/textual/src/containers/container.rs | 49 +---------------------
 1 file changed, 2 insertions(+), 47 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cc6529e..6d3206d 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -25,15 +25,6 @@ use crate::segment::Style;
 use crate::widget::Widget;
 use crate::{KeyCode, MouseEvent, MouseEventKind};
 
-/// Cached layout computation result.
-/// Stores the computed placements along with the region/viewport they were computed for.
-#[derive(Debug, Clone)]
-struct CachedLayout {
-    placements: Vec<WidgetPlacement>,
-    region: Region,
-    viewport: Viewport,
-}
-
 // Re-export for use by Horizontal/Vertical
 pub use tcss::types::Layout as ContainerLayoutDirection;
 
@@ -64,9 +55,6 @@ pub struct Container<M> {
     /// Cached viewport size from on_resize (terminal dimensions).
     /// Used for content_height_for_scroll to match layout calculations.
     viewport: Size,
-    /// Cached layout placements to avoid recomputing on every render.
-    /// Uses RefCell for interior mutability since render takes &self.
-    cached_layout: RefCell<Option<CachedLayout>>,
     /// Scroll state for overflow scrolling.
     /// Uses RefCell for interior mutability since render takes &self.
     scroll: RefCell<ScrollState>,
@@ -90,7 +78,6 @@ impl<M> Container<M> {
             border_subtitle: None,
             layout_override: None,
             viewport: Size::new(80, 24), // Default until on_resize is called
-            cached_layout: RefCell::new(None),
             scroll: RefCell::new(ScrollState::default()),
             scrollbar_hover: None,
             scrollbar_drag: None,
@@ -125,7 +112,6 @@ impl<M> Container<M> {
     /// Replace all children with a new list.
     pub fn set_children(&mut self, children: Vec<Box<dyn Widget<M>>>) {
         self.children = children;
-        self.cached_layout = RefCell::new(None);
         self.scroll = RefCell::new(ScrollState::default());
         self.dirty = true;
     }
@@ -327,19 +313,7 @@ impl<M> Container<M> {
     }
 
     /// Compute child placements using the appropriate layout algorithm.
-    /// Uses caching to avoid recomputation when region/viewport haven't changed.
     fn compute_child_placements(&self, region: Region, viewport: Viewport) -> Vec<WidgetPlacement> {
-        // Check cache first - if region and viewport match, return cached placements
-        {
-            let cache = self.cached_layout.borrow();
-            if let Some(ref cached) = *cache {
-                if cached.region == region && cached.viewport == viewport {
-                    return cached.placements.clone();
-                }
-            }
-        }
-
-        // Cache miss - compute fresh placements
         let children_with_styles: Vec<layouts::LayoutChild> = self
             .children
             .iter()
@@ -358,21 +332,12 @@ impl<M> Container<M> {
         effective_style.layout = self.effective_layout();
 
         // Dispatch to layout (handles layers internally when needed)
-        let placements = layouts::arrange_children_with_layers(
+        layouts::arrange_children_with_layers(
             &effective_style,
             &children_with_styles,
             region,
             viewport,
-        );
-
-        // Store in cache
-        *self.cached_layout.borrow_mut() = Some(CachedLayout {
-            placements: placements.clone(),
-            region,
-            viewport,
-        });
-
-        placements
+        )
     }
 
     /// Render keylines for the container.
@@ -859,8 +824,6 @@ Container {
         // If scrollbar visibility changed the content width, we need to recompute placements
         // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
         let placements = if show_v_scrollbar && content_region.width < inner_region.width {
-            // Invalidate cache since we need to recalculate with smaller width
-            *self.cached_layout.borrow_mut() = None;
             let new_placements = self.compute_child_placements(content_region, viewport);
 
             // Recalculate virtual dimensions with the new placements (content_region based)
@@ -1367,8 +1330,6 @@ Container {
 
     fn set_style(&mut self, style: ComputedStyle) {
         self.style = style;
-        // Invalidate layout cache since style may affect layout
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn get_style(&self) -> ComputedStyle {
@@ -1378,7 +1339,6 @@ Container {
     fn set_inline_style(&mut self, style: StyleOverride) {
         self.inline_style = style;
         self.dirty = true;
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn inline_style(&self) -> Option<&StyleOverride> {
@@ -1392,7 +1352,6 @@ Container {
     fn clear_inline_style(&mut self) {
         self.inline_style = StyleOverride::default();
         self.dirty = true;
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn is_dirty(&self) -> bool {
@@ -1401,8 +1360,6 @@ Container {
 
     fn mark_dirty(&mut self) {
         self.dirty = true;
-        // Invalidate layout cache when container is marked dirty
-        *self.cached_layout.borrow_mut() = None;
     }
 
     fn mark_clean(&mut self) {
@@ -1423,8 +1380,6 @@ Container {
         // Store viewport for content_height_for_scroll calculations
         log::debug!("Container::on_resize: size={}x{}", size.width, size.height);
         self.viewport = size;
-        // Invalidate layout cache since viewport changed
-        *self.cached_layout.borrow_mut() = None;
         for child in &mut self.children {
             child.on_resize(size);
         }
-- 
2.43.0


From 4cf9c5143665f2d90d4397c06312e40ff3fc9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:37 +0000
Subject: [PATCH 36/69] fix: send mouse events to the child drawn under the
 pointer

Mouse dispatch used another viewport, the wrong inner region, no horizontal scroll
offset and the bottom-most child; it now uses the layout that was rendered.
---
 crates/textual/src/containers.rs            | 116 ++++-
 crates/textual/src/containers/container.rs  | 294 ++++++-------
 crates/textual/src/containers/grid.rs       |  68 ++-
 crates/textual/src/containers/item_grid.rs  |  65 ++-
 crates/textual/src/containers/scrollable.rs | 163 ++-----
 crates/textual/src/widget/screen.rs         | 459 +++++---------------
 6 files changed, 431 insertions(+), 734 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 6753f8b..3577053 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -8,10 +8,11 @@ pub mod vertical;
 pub mod vertical_scroll;
 
 use crate::KeyCode;
-use crate::MouseEvent;
+use crate::{MouseEvent, MouseEventKind};
 use crate::canvas::{Canvas, Region, Size};
+use crate::layouts::WidgetPlacement;
 use crate::render_cache::RenderCache;
-use crate::widget::Widget;
+use crate::widget::{SenderInfo, Widget};
 use tcss::ComputedStyle;
 
 /// Renders container chrome (background and border) and returns the inner region.
@@ -79,6 +80,33 @@ fn inner_region_from_cache(
     )
 }
 
+/// Finds the child drawn at a point: the topmost placement containing it, inside the clip region.
+///
+/// Returns the child's index and its on-screen region (with the scroll offset applied).
+pub(crate) fn child_at(
+    placements: &[WidgetPlacement],
+    clip: Region,
+    (offset_x, offset_y): (i32, i32),
+    column: i32,
+    row: i32,
+) -> Option<(usize, Region)> {
+    if !clip.contains_point(column, row) {
+        return None;
+    }
+    placements
+        .iter()
+        .rev()
+        .map(|placement| {
+            let region = Region {
+                x: placement.region.x - offset_x,
+                y: placement.region.y - offset_y,
+                ..placement.region
+            };
+            (placement.child_index, region)
+        })
+        .find(|(_, region)| region.contains_point(column, row))
+}
+
 /// Centered horizontally
 pub struct Center<M> {
     children: Vec<Box<dyn Widget<M>>>,
@@ -120,7 +148,7 @@ impl<M> Center<M> {
     /// Calculate the centered region for the child within the given region.
     fn centered_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_width = child_size.width as i32;
+        let child_width = (child_size.width as i32).min(region.width);
         let x_offset = (region.width - child_width).max(0) / 2;
         Region {
             x: region.x + x_offset,
@@ -133,7 +161,7 @@ impl<M> Center<M> {
 
 impl<M> Widget<M> for Center<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -147,7 +175,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.centered_region(region));
@@ -180,42 +208,66 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_focus();
         }
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
+        if !centered.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse(event, centered)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, SenderInfo)> {
+        if !self.child().participates_in_layout() {
+            return None;
+        }
+        let centered = self.centered_region(region);
+        if !centered.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
+        self.child_mut().on_mouse_with_sender(event, centered)
+    }
+
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_hover();
         }
     }
@@ -272,7 +324,7 @@ impl<M> Middle<M> {
     /// Calculate the vertically centered region for the child within the given region.
     fn middled_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_height = child_size.height as i32;
+        let child_height = (child_size.height as i32).min(region.height);
         let y_offset = (region.height - child_height).max(0) / 2;
         Region {
             x: region.x,
@@ -285,7 +337,7 @@ impl<M> Middle<M> {
 
 impl<M> Widget<M> for Middle<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -299,7 +351,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.middled_region(region));
@@ -332,42 +384,66 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_focus();
         }
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
+        if !middled.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse(event, middled)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, SenderInfo)> {
+        if !self.child().participates_in_layout() {
+            return None;
+        }
+        let middled = self.middled_region(region);
+        if !middled.contains_point(event.column as i32, event.row as i32) {
+            return None;
+        }
+        if matches!(event.kind, MouseEventKind::Moved) {
+            self.child_mut().set_hover(true);
+        }
+        self.child_mut().on_mouse_with_sender(event, middled)
+    }
+
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
+        if self.child().participates_in_layout() {
             self.child_mut().clear_hover();
         }
     }
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 6d3206d..58753ec 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -3,7 +3,7 @@
 //! Container is the base for all layout containers. It dispatches to the
 //! appropriate layout algorithm based on the `layout` CSS property.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use tcss::types::Layout as LayoutDirection;
 use tcss::types::Overflow;
@@ -55,6 +55,8 @@ pub struct Container<M> {
     /// Cached viewport size from on_resize (terminal dimensions).
     /// Used for content_height_for_scroll to match layout calculations.
     viewport: Size,
+    /// Viewport of the last render, so that mouse events see the layout that was drawn.
+    rendered_viewport: Cell<Option<Viewport>>,
     /// Scroll state for overflow scrolling.
     /// Uses RefCell for interior mutability since render takes &self.
     scroll: RefCell<ScrollState>,
@@ -78,6 +80,7 @@ impl<M> Container<M> {
             border_subtitle: None,
             layout_override: None,
             viewport: Size::new(80, 24), // Default until on_resize is called
+            rendered_viewport: Cell::new(None),
             scroll: RefCell::new(ScrollState::default()),
             scrollbar_hover: None,
             scrollbar_drag: None,
@@ -156,24 +159,25 @@ impl<M> Container<M> {
 
     /// Return true if any child occupies the given point within this container region.
     pub fn hit_test_children(&self, region: Region, column: i32, row: i32) -> bool {
-        if !region.contains_point(column, row) {
-            return false;
-        }
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(column, row) {
-                return true;
-            }
-        }
-        false
+        self.child_at(region, column, row).is_some()
+    }
+
+    /// Find the child drawn at the given point of this container's region.
+    pub(crate) fn child_at(
+        &self,
+        region: Region,
+        column: i32,
+        row: i32,
+    ) -> Option<(usize, Region)> {
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| Viewport::from(region));
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        let (content_region, placements) = self.layout_children(inner_region, viewport);
+        let scroll = self.scroll.borrow();
+        let offset = (scroll.offset_x, scroll.offset_y);
+        crate::containers::child_at(&placements, content_region, offset, column, row)
     }
 
     /// Get the effective layout direction (override takes precedence over CSS).
@@ -340,6 +344,102 @@ impl<M> Container<M> {
         )
     }
 
+    /// Lay out the children in the inner region and update the scroll state.
+    ///
+    /// Returns the region left for content beside the scrollbars, and the placements in it.
+    fn layout_children(
+        &self,
+        inner_region: Region,
+        viewport: Viewport,
+    ) -> (Region, Vec<WidgetPlacement>) {
+        // First compute placements to determine virtual content height
+        let initial_placements = self.compute_child_placements(inner_region, viewport);
+
+        // Calculate virtual content dimensions from placements (max extent relative to inner_region)
+        let virtual_height = initial_placements
+            .iter()
+            .map(|p| {
+                let margin_bottom = self
+                    .children
+                    .get(p.child_index)
+                    .map(|child| child.get_style().margin.bottom.value as i32)
+                    .unwrap_or(0);
+                (p.region.y - inner_region.y) + p.region.height + margin_bottom
+            })
+            .max()
+            .unwrap_or(0);
+
+        let virtual_width = initial_placements
+            .iter()
+            .map(|p| {
+                let margin_right = self
+                    .children
+                    .get(p.child_index)
+                    .map(|child| child.get_style().margin.right.value as i32)
+                    .unwrap_or(0);
+                (p.region.x - inner_region.x) + p.region.width + margin_right
+            })
+            .max()
+            .unwrap_or(0);
+
+        // Update scroll state with virtual size and viewport
+        {
+            let mut scroll = self.scroll.borrow_mut();
+            scroll.set_virtual_size(virtual_width, virtual_height);
+            scroll.set_viewport(inner_region.width, inner_region.height);
+        }
+
+        // Determine if we need scrollbars and adjust content region
+        let show_v_scrollbar = self.show_vertical_scrollbar();
+        let content_region = self.content_region_for_scroll(inner_region);
+
+        // If scrollbar visibility changed the content width, we need to recompute placements
+        // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
+        let placements = if show_v_scrollbar && content_region.width < inner_region.width {
+            let new_placements = self.compute_child_placements(content_region, viewport);
+
+            // Recalculate virtual dimensions with the new placements (content_region based)
+            let new_virtual_height = new_placements
+                .iter()
+                .map(|p| {
+                    let margin_bottom = self
+                        .children
+                        .get(p.child_index)
+                        .map(|child| child.get_style().margin.bottom.value as i32)
+                        .unwrap_or(0);
+                    (p.region.y - content_region.y) + p.region.height + margin_bottom
+                })
+                .max()
+                .unwrap_or(0);
+
+            let new_virtual_width = new_placements
+                .iter()
+                .map(|p| {
+                    let margin_right = self
+                        .children
+                        .get(p.child_index)
+                        .map(|child| child.get_style().margin.right.value as i32)
+                        .unwrap_or(0);
+                    (p.region.x - content_region.x) + p.region.width + margin_right
+                })
+                .max()
+                .unwrap_or(0);
+
+            // Update scroll state with corrected virtual dimensions
+            {
+                let mut scroll = self.scroll.borrow_mut();
+                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
+                scroll.set_viewport(content_region.width, content_region.height);
+            }
+
+            new_placements
+        } else {
+            initial_placements
+        };
+
+        (content_region, placements)
+    }
+
     /// Render keylines for the container.
     ///
     /// For horizontal layout: draws outer box + vertical dividers between children
@@ -780,90 +880,8 @@ Container {
         // 5. Update scroll state and compute content region
         let viewport = canvas.viewport();
 
-        // First compute placements to determine virtual content height
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-
-        // Calculate virtual content dimensions from placements (max extent relative to inner_region)
-        let virtual_height = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_bottom = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.bottom.value as i32)
-                    .unwrap_or(0);
-                (p.region.y - inner_region.y) + p.region.height + margin_bottom
-            })
-            .max()
-            .unwrap_or(0);
-
-        let virtual_width = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_right = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.right.value as i32)
-                    .unwrap_or(0);
-                (p.region.x - inner_region.x) + p.region.width + margin_right
-            })
-            .max()
-            .unwrap_or(0);
-
-        // Update scroll state with virtual size and viewport
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(inner_region.width, inner_region.height);
-        }
-
-        // Determine if we need scrollbars and adjust content region
-        let show_v_scrollbar = self.show_vertical_scrollbar();
-        let content_region = self.content_region_for_scroll(inner_region);
-
-        // If scrollbar visibility changed the content width, we need to recompute placements
-        // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
-        let placements = if show_v_scrollbar && content_region.width < inner_region.width {
-            let new_placements = self.compute_child_placements(content_region, viewport);
-
-            // Recalculate virtual dimensions with the new placements (content_region based)
-            let new_virtual_height = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_bottom = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.bottom.value as i32)
-                        .unwrap_or(0);
-                    (p.region.y - content_region.y) + p.region.height + margin_bottom
-                })
-                .max()
-                .unwrap_or(0);
-
-            let new_virtual_width = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_right = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.right.value as i32)
-                        .unwrap_or(0);
-                    (p.region.x - content_region.x) + p.region.width + margin_right
-                })
-                .max()
-                .unwrap_or(0);
-
-            // Update scroll state with corrected virtual dimensions
-            {
-                let mut scroll = self.scroll.borrow_mut();
-                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
-                scroll.set_viewport(content_region.width, content_region.height);
-            }
-
-            new_placements
-        } else {
-            initial_placements
-        };
+        self.rendered_viewport.set(Some(viewport));
+        let (content_region, placements) = self.layout_children(inner_region, viewport);
 
         // Get scroll offsets for rendering
         let (offset_x, offset_y) = {
@@ -1426,36 +1444,13 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, scrolled_placement)
-                {
-                    return Some(msg);
-                }
-            }
+        // Dispatch to the child drawn under the pointer
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -1491,36 +1486,13 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, scrolled_placement)
-                {
-                    return Some(result);
-                }
-            }
+        // Dispatch to the child drawn under the pointer
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 45082ba..e3b3822 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -25,6 +25,8 @@
 //! }
 //! ```
 
+use std::cell::Cell;
+
 use tcss::{
     ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility,
     types::keyline::KeylineStyle,
@@ -32,7 +34,7 @@ use tcss::{
 
 use crate::keyline_canvas::KeylineCanvas;
 use crate::layouts::{self, GridLayout, Layout};
-use crate::{Canvas, KeyCode, MouseEvent, Region, Size, Widget};
+use crate::{Canvas, KeyCode, MouseEvent, MouseEventKind, Region, Size, Widget};
 
 /// A grid container that arranges children in a 2D grid.
 ///
@@ -46,6 +48,8 @@ pub struct Grid<M> {
     inline_style: StyleOverride,
     dirty: bool,
     id: Option<String>,
+    /// Viewport of the last render, so that mouse events see the layout that was drawn.
+    rendered_viewport: Cell<Option<layouts::Viewport>>,
 }
 
 impl<M> Grid<M> {
@@ -57,6 +61,7 @@ impl<M> Grid<M> {
             inline_style: StyleOverride::default(),
             dirty: true,
             id: None,
+            rendered_viewport: Cell::new(None),
         }
     }
 
@@ -66,6 +71,17 @@ impl<M> Grid<M> {
         self
     }
 
+    /// Find the child drawn at the given point of this container's region.
+    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        let placements = self.compute_child_placements(inner_region, viewport);
+        crate::containers::child_at(&placements, inner_region, (0, 0), column, row)
+    }
+
     /// Compute child placements using GridLayout.
     fn compute_child_placements(
         &self,
@@ -242,6 +258,7 @@ Grid {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.rendered_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -364,27 +381,12 @@ Grid {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
-        }
-
-        // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Then iterate and dispatch mouse events (borrows self mutably)
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
-            }
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -395,26 +397,12 @@ Grid {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
-            }
-        }
-
-        None
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 2c8e26f..9bfe8d1 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -6,12 +6,14 @@
 //! - `stretch_height`: Force all cells in a row to equal height
 //! - `regular`: Ensure no partial rows (even distribution)
 
+use std::cell::Cell;
+
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts::{self, GridLayout, Layout};
 use crate::widget::Widget;
-use crate::{KeyCode, MouseEvent};
+use crate::{KeyCode, MouseEvent, MouseEventKind};
 
 /// A grid container with automatic column calculation.
 ///
@@ -35,6 +37,8 @@ pub struct ItemGrid<M> {
     inline_style: StyleOverride,
     dirty: bool,
     id: Option<String>,
+    /// Viewport of the last render, so that mouse events see the layout that was drawn.
+    rendered_viewport: Cell<Option<layouts::Viewport>>,
 
     // Runtime-configurable properties (passed to GridLayout via pre_layout)
     // Use the builder methods (with_min_column_width, etc.) to set these
@@ -53,6 +57,7 @@ impl<M> ItemGrid<M> {
             inline_style: StyleOverride::default(),
             dirty: true,
             id: None,
+            rendered_viewport: Cell::new(None),
             min_column_width: None,
             max_column_width: None,
             stretch_height: true,
@@ -101,6 +106,17 @@ impl<M> ItemGrid<M> {
             .count()
     }
 
+    /// Find the child drawn at the given point of this container's region.
+    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        let placements = self.compute_child_placements(inner_region, viewport);
+        crate::containers::child_at(&placements, inner_region, (0, 0), column, row)
+    }
+
     /// Compute child placements using GridLayout with pre_layout configuration.
     fn compute_child_placements(
         &self,
@@ -151,6 +167,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.rendered_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -248,25 +265,12 @@ impl<M> Widget<M> for ItemGrid<M> {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
-            }
-        }
-
-        None
+        child.on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -277,25 +281,12 @@ impl<M> Widget<M> for ItemGrid<M> {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
-        }
-
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
-            }
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28593e2..f3b93d3 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -7,7 +7,7 @@
 //! - Mouse wheel support
 //! - CSS-configurable scrollbar styling
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts::{self, Viewport};
@@ -54,6 +54,8 @@ pub struct ScrollableContainer<M> {
     id: Option<String>,
     /// CSS classes for styling
     classes: Vec<String>,
+    /// Viewport of the last render, so that mouse events see the layout that was drawn.
+    rendered_viewport: Cell<Option<Viewport>>,
 }
 
 struct ScrollLayout {
@@ -78,6 +80,7 @@ impl<M> ScrollableContainer<M> {
             scrollbar_drag: None,
             id: None,
             classes: Vec::new(),
+            rendered_viewport: Cell::new(None),
         }
     }
 
@@ -547,6 +550,19 @@ impl<M> ScrollableContainer<M> {
         }
     }
 
+    /// Find the child drawn at the given point.
+    fn child_at(&self, layout: &ScrollLayout, column: i32, row: i32) -> Option<(usize, Region)> {
+        let scroll = self.scroll.borrow();
+        let offset = (scroll.offset_x, scroll.offset_y);
+        crate::containers::child_at(
+            &layout.placements,
+            layout.content_region,
+            offset,
+            column,
+            row,
+        )
+    }
+
     /// Handle a scroll message.
     fn handle_scroll(&mut self, msg: ScrollMessage) {
         match msg {
@@ -676,6 +692,7 @@ ScrollableContainer {
         };
 
         let viewport = canvas.viewport();
+        self.rendered_viewport.set(Some(viewport));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -981,7 +998,10 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1037,20 +1057,9 @@ ScrollableContainer {
 
                 // Pass to content if in content area
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        self.children[index].set_hover(true);
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1062,20 +1071,8 @@ ScrollableContainer {
                 } else if on_horizontal {
                     return self.handle_horizontal_scrollbar_click(event, h_region);
                 } else if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1087,20 +1084,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1113,20 +1098,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index].on_mouse(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse(event, child_region);
                     }
                 }
                 None
@@ -1185,7 +1158,10 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1225,21 +1201,9 @@ ScrollableContainer {
 
                 // Pass to content if in content area
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        self.children[index].set_hover(true);
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
@@ -1255,21 +1219,8 @@ ScrollableContainer {
                         .handle_horizontal_scrollbar_click(event, h_region)
                         .map(|msg| (msg, self.sender_info()));
                 } else if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
@@ -1283,21 +1234,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
@@ -1310,21 +1248,8 @@ ScrollableContainer {
                 }
                 // Pass to content
                 if content_region.contains_point(mx, my) {
-                    let (offset_x, offset_y) = {
-                        let scroll = self.scroll.borrow();
-                        (scroll.offset_x, scroll.offset_y)
-                    };
-                    for placement in &layout.placements {
-                        let scrolled = Region {
-                            x: placement.region.x - offset_x,
-                            y: placement.region.y - offset_y,
-                            width: placement.region.width,
-                            height: placement.region.height,
-                        };
-                        if scrolled.contains_point(mx, my) {
-                            return self.children[placement.child_index]
-                                .on_mouse_with_sender(event, scrolled);
-                        }
+                    if let Some((index, child_region)) = self.child_at(&layout, mx, my) {
+                        return self.children[index].on_mouse_with_sender(event, child_region);
                     }
                 }
                 None
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index af87e7d..007dbbc 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -14,7 +14,7 @@
 //!
 //! The last matching breakpoint wins (iterate in order).
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts;
@@ -61,6 +61,8 @@ pub struct Screen<M> {
     scrollbar_drag: Option<(bool, i32)>,
     horizontal_breakpoints: &'static [Breakpoint],
     vertical_breakpoints: &'static [Breakpoint],
+    /// Viewport of the last render, so that mouse events see the layout that was drawn.
+    rendered_viewport: Cell<Option<layouts::Viewport>>,
 }
 
 impl<M> Screen<M> {
@@ -77,6 +79,7 @@ impl<M> Screen<M> {
             scrollbar_drag: None,
             horizontal_breakpoints: DEFAULT_HORIZONTAL_BREAKPOINTS,
             vertical_breakpoints: DEFAULT_VERTICAL_BREAKPOINTS,
+            rendered_viewport: Cell::new(None),
         }
     }
 
@@ -200,51 +203,99 @@ impl<M> Screen<M> {
         (virtual_width, virtual_height, max_from_auto)
     }
 
+    /// Lay out the children in the inner region and update the scroll state.
+    ///
+    /// Returns the region left for content beside the scrollbars, and the placements in it.
+    fn layout_children(
+        &self,
+        inner_region: Region,
+        viewport: layouts::Viewport,
+    ) -> (Region, Vec<layouts::WidgetPlacement>) {
+        let initial_placements = self.compute_child_placements(inner_region, viewport);
+        let (virtual_width, virtual_height, _) =
+            self.compute_virtual_size(&initial_placements, inner_region);
+
+        // Do not pad virtual size here; padding can fabricate overflow and force
+        // Screen-level scrollbars even when content fits (differs from Python Textual).
+
+        let show_v_scrollbar = match self.style.overflow_y {
+            Overflow::Scroll => true,
+            Overflow::Hidden => false,
+            Overflow::Auto => virtual_height > inner_region.height,
+        };
+        let show_h_scrollbar = match self.style.overflow_x {
+            Overflow::Scroll => true,
+            Overflow::Hidden => false,
+            Overflow::Auto => virtual_width > inner_region.width,
+        };
+
+        let style = &self.style.scrollbar;
+        let v_size = if show_v_scrollbar
+            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
+        {
+            style.size.vertical as i32
+        } else {
+            0
+        };
+        let h_size = if show_h_scrollbar {
+            style.size.horizontal as i32
+        } else {
+            0
+        };
+
+        let content_region = Region {
+            x: inner_region.x,
+            y: inner_region.y,
+            width: (inner_region.width - v_size).max(0),
+            height: (inner_region.height - h_size).max(0),
+        };
+
+        let (placements, recomputed) =
+            if show_v_scrollbar && content_region.width < inner_region.width {
+                let new_placements = self.compute_child_placements(content_region, viewport);
+                (new_placements, true)
+            } else {
+                (initial_placements, false)
+            };
+
+        let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
+            self.compute_virtual_size(&placements, content_region)
+        } else {
+            (virtual_width, virtual_height, false)
+        };
+
+        {
+            let mut scroll = self.scroll.borrow_mut();
+            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
+            scroll.set_viewport(content_region.width, content_region.height);
+        }
+
+        (content_region, placements)
+    }
+
+    /// Dispatch a mouse event to the child drawn under the pointer.
     fn dispatch_mouse_to_children(
         &mut self,
         event: MouseEvent,
-        region: Region,
-        viewport: layouts::Viewport,
+        content_region: Region,
+        placements: &[layouts::WidgetPlacement],
     ) -> Option<(M, crate::widget::SenderInfo)> {
-        let placements = self.compute_child_placements(region, viewport);
-        let (offset_x, offset_y) = {
+        let offset = {
             let scroll = self.scroll.borrow();
             (scroll.offset_x, scroll.offset_y)
         };
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            let scrolled_region = if let Some(child) = self.children.get(placement.child_index) {
-                let style = child.get_style();
-                if style.dock.is_none() && style.position != tcss::types::Position::Absolute {
-                    Region {
-                        x: scrolled_region.x - offset_x,
-                        y: scrolled_region.y - offset_y,
-                        width: scrolled_region.width,
-                        height: scrolled_region.height,
-                    }
-                } else {
-                    scrolled_region
-                }
-            } else {
-                scrolled_region
-            };
-            if scrolled_region.contains_point(event.column as i32, event.row as i32) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
-                        child.set_hover(true);
-                    }
-                    return child.on_mouse_with_sender(event, scrolled_region);
-                }
-            }
+        let (index, child_region) = crate::containers::child_at(
+            placements,
+            content_region,
+            offset,
+            event.column as i32,
+            event.row as i32,
+        )?;
+        let child = self.children.get_mut(index)?;
+        if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn show_vertical_scrollbar(&self) -> bool {
@@ -277,32 +328,6 @@ impl<M> Screen<M> {
             && style.size.horizontal > 0
     }
 
-    fn content_region_for_scroll(&self, region: Region) -> Region {
-        let style = &self.style.scrollbar;
-        // Vertical gutter: apply when showing scrollbar OR when stable gutter with overflow-y: auto
-        // (matches Python Textual behavior where scrollbar-gutter only affects vertical scrollbar)
-        let v_size = if self.show_vertical_scrollbar()
-            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
-        {
-            style.size.vertical as i32
-        } else {
-            0
-        };
-        // Horizontal gutter: only when actually showing scrollbar (no stable gutter support)
-        let h_size = if self.show_horizontal_scrollbar() {
-            style.size.horizontal as i32
-        } else {
-            0
-        };
-
-        Region {
-            x: region.x,
-            y: region.y,
-            width: (region.width - v_size).max(0),
-            height: (region.height - h_size).max(0),
-        }
-    }
-
     fn vertical_scrollbar_region(&self, region: Region) -> Region {
         let style = &self.style.scrollbar;
         let h_size = if self.show_horizontal_scrollbar() {
@@ -505,64 +530,8 @@ Screen {
         // Use the canvas viewport (screen dimensions) for CSS vw/vh units
         let viewport = canvas.viewport();
 
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-        let (virtual_width, virtual_height, _) =
-            self.compute_virtual_size(&initial_placements, inner_region);
-
-        // Do not pad virtual size here; padding can fabricate overflow and force
-        // Screen-level scrollbars even when content fits (differs from Python Textual).
-
-        let show_v_scrollbar = match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_height > inner_region.height,
-        };
-        let show_h_scrollbar = match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_width > inner_region.width,
-        };
-
-        let style = &self.style.scrollbar;
-        let v_size = if show_v_scrollbar
-            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
-        {
-            style.size.vertical as i32
-        } else {
-            0
-        };
-        let h_size = if show_h_scrollbar {
-            style.size.horizontal as i32
-        } else {
-            0
-        };
-
-        let content_region = Region {
-            x: inner_region.x,
-            y: inner_region.y,
-            width: (inner_region.width - v_size).max(0),
-            height: (inner_region.height - h_size).max(0),
-        };
-
-        let (placements, recomputed) =
-            if show_v_scrollbar && content_region.width < inner_region.width {
-                let new_placements = self.compute_child_placements(content_region, viewport);
-                (new_placements, true)
-            } else {
-                (initial_placements, false)
-            };
-
-        let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
-            self.compute_virtual_size(&placements, content_region)
-        } else {
-            (virtual_width, virtual_height, false)
-        };
-
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
+        self.rendered_viewport.set(Some(viewport));
+        let (content_region, placements) = self.layout_children(inner_region, viewport);
 
         let (offset_x, offset_y) = {
             let scroll = self.scroll.borrow();
@@ -769,188 +738,7 @@ Screen {
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        let mx = event.column as i32;
-        let my = event.row as i32;
-
-        if !region.contains_point(mx, my) {
-            return None;
-        }
-
-        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
-        let viewport = layouts::Viewport::from(region);
-
-        // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
-        let v_region = self.vertical_scrollbar_region(inner_region);
-        let h_region = self.horizontal_scrollbar_region(inner_region);
-        let render_vertical = self.render_vertical_scrollbar();
-        let render_horizontal = self.render_horizontal_scrollbar();
-        let on_vertical = render_vertical && v_region.contains_point(mx, my);
-        let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
-
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
-        // Keep scroll viewport in sync with current content region so max scroll bounds
-        // match the visible area (especially when scrollbars consume space).
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
-        const SCROLL_AMOUNT: i32 = 3;
-        match event.kind {
-            crossterm::event::MouseEventKind::Moved => {
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
-                    return None;
-                }
-
-                let new_hover = if on_vertical {
-                    Some(true)
-                } else if on_horizontal {
-                    Some(false)
-                } else {
-                    None
-                };
-
-                if self.scrollbar_hover != new_hover {
-                    self.scrollbar_hover = new_hover;
-                    self.is_dirty = true;
-                }
-
-                if layout_region.contains_point(mx, my) {
-                    return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
-                        .map(|(msg, _)| msg);
-                }
-                return None;
-            }
-            crossterm::event::MouseEventKind::Down(_) => {
-                if on_vertical {
-                    self.handle_vertical_scrollbar_click(event, v_region);
-                    return None;
-                }
-                if on_horizontal {
-                    self.handle_horizontal_scrollbar_click(event, h_region);
-                    return None;
-                }
-                if layout_region.contains_point(mx, my) {
-                    return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
-                        .map(|(msg, _)| msg);
-                }
-                return None;
-            }
-            crossterm::event::MouseEventKind::Drag(_) => {
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
-                    return None;
-                }
-                if layout_region.contains_point(mx, my) {
-                    return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
-                        .map(|(msg, _)| msg);
-                }
-                return None;
-            }
-            crossterm::event::MouseEventKind::Up(_) => {
-                if self.scrollbar_drag.is_some() {
-                    self.scrollbar_drag = None;
-                    self.is_dirty = true;
-                }
-                if layout_region.contains_point(mx, my) {
-                    return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
-                        .map(|(msg, _)| msg);
-                }
-                return None;
-            }
-            crossterm::event::MouseEventKind::ScrollDown => {
-                let allow_horizontal = self.show_horizontal_scrollbar();
-                let allow_vertical = self.show_vertical_scrollbar();
-                if event.modifiers.contains(KeyModifiers::SHIFT)
-                    || event.modifiers.contains(KeyModifiers::CONTROL)
-                {
-                    if allow_horizontal {
-                        let mut scroll = self.scroll.borrow_mut();
-                        let max_scroll_x = (scroll.virtual_width - content_region.width).max(0);
-                        scroll.offset_x = (scroll.offset_x + SCROLL_AMOUNT).min(max_scroll_x);
-                        self.is_dirty = true;
-                        return None;
-                    }
-                } else if allow_vertical {
-                    let mut scroll = self.scroll.borrow_mut();
-                    let max_scroll_y = (scroll.virtual_height - content_region.height).max(0);
-                    scroll.offset_y = (scroll.offset_y + SCROLL_AMOUNT).min(max_scroll_y);
-                    self.is_dirty = true;
-                    return None;
-                }
-            }
-            crossterm::event::MouseEventKind::ScrollUp => {
-                let allow_horizontal = self.show_horizontal_scrollbar();
-                let allow_vertical = self.show_vertical_scrollbar();
-                if event.modifiers.contains(KeyModifiers::SHIFT)
-                    || event.modifiers.contains(KeyModifiers::CONTROL)
-                {
-                    if allow_horizontal {
-                        let mut scroll = self.scroll.borrow_mut();
-                        scroll.offset_x = (scroll.offset_x - SCROLL_AMOUNT).max(0);
-                        self.is_dirty = true;
-                        return None;
-                    }
-                } else if allow_vertical {
-                    let mut scroll = self.scroll.borrow_mut();
-                    scroll.offset_y = (scroll.offset_y - SCROLL_AMOUNT).max(0);
-                    self.is_dirty = true;
-                    return None;
-                }
-            }
-            crossterm::event::MouseEventKind::ScrollLeft => {
-                if self.show_horizontal_scrollbar() {
-                    let mut scroll = self.scroll.borrow_mut();
-                    scroll.offset_x = (scroll.offset_x - SCROLL_AMOUNT).max(0);
-                    self.is_dirty = true;
-                    return None;
-                }
-            }
-            crossterm::event::MouseEventKind::ScrollRight => {
-                if self.show_horizontal_scrollbar() {
-                    let mut scroll = self.scroll.borrow_mut();
-                    let max_scroll_x = (scroll.virtual_width - content_region.width).max(0);
-                    scroll.offset_x = (scroll.offset_x + SCROLL_AMOUNT).min(max_scroll_x);
-                    self.is_dirty = true;
-                    return None;
-                }
-            }
-        }
-
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some((msg, _sender)) = child.on_mouse_with_sender(event, scrolled_region)
-                    {
-                        return Some(msg);
-                    }
-                }
-            }
-        }
-
-        None
+        self.on_mouse_with_sender(event, region).map(|(msg, _)| msg)
     }
 
     fn on_mouse_with_sender(
@@ -966,10 +754,13 @@ Screen {
         }
 
         let inner_region = crate::containers::inner_region_for_container(region, &self.style);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        let (content_region, placements) = self.layout_children(inner_region, viewport);
 
         // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
         let v_region = self.vertical_scrollbar_region(inner_region);
         let h_region = self.horizontal_scrollbar_region(inner_region);
         let render_vertical = self.render_vertical_scrollbar();
@@ -977,20 +768,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
-        // Keep scroll viewport in sync with current content region so max scroll bounds
-        // match the visible area (especially when scrollbars consume space).
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
@@ -1012,10 +789,7 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
-                }
-                return None;
+                return self.dispatch_mouse_to_children(event, content_region, &placements);
             }
             crossterm::event::MouseEventKind::Down(_) => {
                 if on_vertical {
@@ -1026,30 +800,21 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
-                }
-                return None;
+                return self.dispatch_mouse_to_children(event, content_region, &placements);
             }
             crossterm::event::MouseEventKind::Drag(_) => {
                 if let Some((vertical, grab_offset)) = self.scrollbar_drag {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
-                }
-                return None;
+                return self.dispatch_mouse_to_children(event, content_region, &placements);
             }
             crossterm::event::MouseEventKind::Up(_) => {
                 if self.scrollbar_drag.is_some() {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
-                }
-                return None;
+                return self.dispatch_mouse_to_children(event, content_region, &placements);
             }
             crossterm::event::MouseEventKind::ScrollDown => {
                 let allow_horizontal = self.show_horizontal_scrollbar();
@@ -1110,27 +875,7 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some(result) = child.on_mouse_with_sender(event, scrolled_region) {
-                        return Some(result);
-                    }
-                }
-            }
-        }
-
-        None
+        self.dispatch_mouse_to_children(event, content_region, &placements)
     }
 
     fn set_hover(&mut self, is_hovered: bool) -> bool {
-- 
2.43.0


From 7bd79469be77ccd0917132dfb46e3de28c3bcc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:37 +0000
Subject: [PATCH 37/69] fix: select the option drawn under the pointer in an
 option list

---
 crates/textual/src/widget/option_list.rs | 25 +++---------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index ab89dc6..28885fa 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -71,7 +71,6 @@ pub struct OptionList<M> {
     inner: Container<M>,
     items: Vec<String>,
     disabled: Vec<bool>,
-    line_counts: Vec<usize>,
     selected: usize,
     focused: bool,
     dirty: bool,
@@ -88,7 +87,6 @@ impl<M: 'static> OptionList<M> {
             inner,
             items,
             disabled: Vec::new(),
-            line_counts: Vec::new(),
             selected: 0,
             focused: false,
             dirty: true,
@@ -223,12 +221,6 @@ impl<M: 'static> OptionList<M> {
     }
 
     fn refresh_display(&mut self) {
-        self.line_counts = self
-            .items
-            .iter()
-            .map(|item| item.split('\n').count().max(1))
-            .collect();
-
         let mut children: Vec<Box<dyn Widget<M>>> = Vec::with_capacity(self.items.len().max(1));
         for (index, item) in self.items.iter().enumerate() {
             let content = if self.allow_markup {
@@ -278,17 +270,6 @@ impl<M: 'static> OptionList<M> {
             }
         }
     }
-
-    fn index_for_row(&self, row: usize) -> Option<usize> {
-        let mut remaining = row;
-        for (index, count) in self.line_counts.iter().enumerate() {
-            if remaining < *count {
-                return Some(index);
-            }
-            remaining = remaining.saturating_sub(*count);
-        }
-        None
-    }
 }
 
 impl<M: 'static> Widget<M> for OptionList<M> {
@@ -349,9 +330,9 @@ OptionList > .option-list--option {
 
         match event.kind {
             MouseEventKind::Up(crossterm::event::MouseButton::Left) => {
-                let local_y = (my - region.y) as usize;
-                if let Some(index) = self.index_for_row(local_y) {
-                    if !self.disabled_at(index) {
+                let option = self.inner.child_at(region, mx, my);
+                if let Some((index, _)) = option {
+                    if index < self.items.len() && !self.disabled_at(index) {
                         if self.selected != index {
                             self.selected = index;
                             self.refresh_display();
-- 
2.43.0


From abcd03f22fd6aab5601d182419de377dcdfe6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:43 +0000
Subject: [PATCH 38/69] fix: end a scrollbar drag whose release went elsewhere

---
 crates/textual/src/containers/scrollable.rs | 16 ++++++++--------
 crates/textual/src/widget/screen.rs         |  7 ++++---
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index f3b93d3..7b9a863 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1036,9 +1036,9 @@ ScrollableContainer {
 
         match event.kind {
             MouseEventKind::Moved => {
-                // Handle drag
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    return self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
+                // Moving without a button held means that a drag has ended, perhaps elsewhere
+                if self.scrollbar_drag.take().is_some() {
+                    self.dirty = true;
                 }
 
                 // Update hover state
@@ -1066,6 +1066,7 @@ ScrollableContainer {
             }
 
             MouseEventKind::Down(_) => {
+                self.scrollbar_drag = None;
                 if on_vertical {
                     return self.handle_vertical_scrollbar_click(event, v_region);
                 } else if on_horizontal {
@@ -1178,11 +1179,9 @@ ScrollableContainer {
 
         match event.kind {
             MouseEventKind::Moved => {
-                // Handle drag
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    return self
-                        .handle_scrollbar_drag(event, inner_region, vertical, grab_offset)
-                        .map(|msg| (msg, self.sender_info()));
+                // Moving without a button held means that a drag has ended, perhaps elsewhere
+                if self.scrollbar_drag.take().is_some() {
+                    self.dirty = true;
                 }
 
                 // Update hover state
@@ -1210,6 +1209,7 @@ ScrollableContainer {
             }
 
             MouseEventKind::Down(_) => {
+                self.scrollbar_drag = None;
                 if on_vertical {
                     return self
                         .handle_vertical_scrollbar_click(event, v_region)
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 007dbbc..1ac146e 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -771,9 +771,9 @@ Screen {
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
-                if let Some((vertical, grab_offset)) = self.scrollbar_drag {
-                    self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
-                    return None;
+                // Moving without a button held means that a drag has ended, perhaps elsewhere
+                if self.scrollbar_drag.take().is_some() {
+                    self.is_dirty = true;
                 }
 
                 let new_hover = if on_vertical {
@@ -792,6 +792,7 @@ Screen {
                 return self.dispatch_mouse_to_children(event, content_region, &placements);
             }
             crossterm::event::MouseEventKind::Down(_) => {
+                self.scrollbar_drag = None;
                 if on_vertical {
                     self.handle_vertical_scrollbar_click(event, v_region);
                     return None;
-- 
2.43.0


From 683b777995fdacfba1da67916e9385d6d5b29aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:48 +0000
Subject: [PATCH 39/69] fix: lay out scrolled content beside the scrollbars
 that are drawn

The first layout pass clamped the scroll offset to a larger viewport, so the last row could
not be reached; a scrollbar that became necessary only beside the other one covered content.
---
 crates/textual/src/containers/container.rs  | 138 +++++++-------------
 crates/textual/src/containers/scrollable.rs |   9 +-
 crates/textual/src/widget/screen.rs         |  97 ++++++--------
 3 files changed, 91 insertions(+), 153 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 58753ec..9820a06 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -57,6 +57,8 @@ pub struct Container<M> {
     viewport: Size,
     /// Viewport of the last render, so that mouse events see the layout that was drawn.
     rendered_viewport: Cell<Option<Viewport>>,
+    /// Whether the (vertical, horizontal) scrollbars are part of the current layout.
+    scrollbars_shown: Cell<(bool, bool)>,
     /// Scroll state for overflow scrolling.
     /// Uses RefCell for interior mutability since render takes &self.
     scroll: RefCell<ScrollState>,
@@ -81,6 +83,7 @@ impl<M> Container<M> {
             layout_override: None,
             viewport: Size::new(80, 24), // Default until on_resize is called
             rendered_viewport: Cell::new(None),
+            scrollbars_shown: Cell::new((false, false)),
             scroll: RefCell::new(ScrollState::default()),
             scrollbar_hover: None,
             scrollbar_drag: None,
@@ -185,28 +188,14 @@ impl<M> Container<M> {
         self.layout_override.unwrap_or(self.style.layout)
     }
 
-    /// Check if vertical scrollbar should be shown based on overflow-y and content.
+    /// Check if vertical scrollbar is shown in the current layout.
     fn show_vertical_scrollbar(&self) -> bool {
-        match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_y()
-            }
-            Overflow::Hidden => false,
-        }
+        self.scrollbars_shown.get().0
     }
 
-    /// Check if horizontal scrollbar should be shown based on overflow-x and content.
+    /// Check if horizontal scrollbar is shown in the current layout.
     fn show_horizontal_scrollbar(&self) -> bool {
-        match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_x()
-            }
-            Overflow::Hidden => false,
-        }
+        self.scrollbars_shown.get().1
     }
 
     fn render_vertical_scrollbar(&self) -> bool {
@@ -352,91 +341,52 @@ impl<M> Container<M> {
         inner_region: Region,
         viewport: Viewport,
     ) -> (Region, Vec<WidgetPlacement>) {
-        // First compute placements to determine virtual content height
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-
-        // Calculate virtual content dimensions from placements (max extent relative to inner_region)
-        let virtual_height = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_bottom = self
+        // A scrollbar takes room from the content, which can make the other one necessary: lay out
+        // again until the scrollbars fit the layout. A scrollbar stays once it was needed.
+        let mut show_vertical = self.style.overflow_y == Overflow::Scroll;
+        let mut show_horizontal = self.style.overflow_x == Overflow::Scroll;
+        let (content_region, placements, virtual_width, virtual_height) = loop {
+            self.scrollbars_shown.set((show_vertical, show_horizontal));
+            let content_region = self.content_region_for_scroll(inner_region);
+            let placements = self.compute_child_placements(content_region, viewport);
+
+            // Virtual content dimensions: the furthest extent of the placements and their margins
+            let (mut virtual_width, mut virtual_height) = (0, 0);
+            for (index, p) in placements.iter().enumerate() {
+                let margin = self
                     .children
                     .get(p.child_index)
-                    .map(|child| child.get_style().margin.bottom.value as i32)
-                    .unwrap_or(0);
-                (p.region.y - inner_region.y) + p.region.height + margin_bottom
-            })
-            .max()
-            .unwrap_or(0);
+                    .map(|child| child.get_style().margin)
+                    .unwrap_or_default();
+                let right =
+                    (p.region.x - content_region.x) + p.region.width + margin.right.value as i32;
+                let bottom =
+                    (p.region.y - content_region.y) + p.region.height + margin.bottom.value as i32;
+                if index == 0 {
+                    (virtual_width, virtual_height) = (right, bottom);
+                } else {
+                    virtual_width = virtual_width.max(right);
+                    virtual_height = virtual_height.max(bottom);
+                }
+            }
 
-        let virtual_width = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_right = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.right.value as i32)
-                    .unwrap_or(0);
-                (p.region.x - inner_region.x) + p.region.width + margin_right
-            })
-            .max()
-            .unwrap_or(0);
+            let next_vertical = show_vertical
+                || self.style.overflow_y == Overflow::Auto
+                    && virtual_height > content_region.height;
+            let next_horizontal = show_horizontal
+                || self.style.overflow_x == Overflow::Auto && virtual_width > content_region.width;
+            if (next_vertical, next_horizontal) == (show_vertical, show_horizontal) {
+                break (content_region, placements, virtual_width, virtual_height);
+            }
+            (show_vertical, show_horizontal) = (next_vertical, next_horizontal);
+        };
 
-        // Update scroll state with virtual size and viewport
         {
             let mut scroll = self.scroll.borrow_mut();
             scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(inner_region.width, inner_region.height);
+            scroll.set_viewport(content_region.width, content_region.height);
         }
 
-        // Determine if we need scrollbars and adjust content region
-        let show_v_scrollbar = self.show_vertical_scrollbar();
-        let content_region = self.content_region_for_scroll(inner_region);
-
-        // If scrollbar visibility changed the content width, we need to recompute placements
-        // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
-        let placements = if show_v_scrollbar && content_region.width < inner_region.width {
-            let new_placements = self.compute_child_placements(content_region, viewport);
-
-            // Recalculate virtual dimensions with the new placements (content_region based)
-            let new_virtual_height = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_bottom = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.bottom.value as i32)
-                        .unwrap_or(0);
-                    (p.region.y - content_region.y) + p.region.height + margin_bottom
-                })
-                .max()
-                .unwrap_or(0);
-
-            let new_virtual_width = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_right = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.right.value as i32)
-                        .unwrap_or(0);
-                    (p.region.x - content_region.x) + p.region.width + margin_right
-                })
-                .max()
-                .unwrap_or(0);
-
-            // Update scroll state with corrected virtual dimensions
-            {
-                let mut scroll = self.scroll.borrow_mut();
-                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
-                scroll.set_viewport(content_region.width, content_region.height);
-            }
-
-            new_placements
-        } else {
-            initial_placements
-        };
-
         (content_region, placements)
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 7b9a863..fe95351 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -496,8 +496,8 @@ impl<M> ScrollableContainer<M> {
     }
 
     fn compute_scroll_layout(&self, inner_region: Region, viewport: Viewport) -> ScrollLayout {
-        let mut show_vertical = false;
-        let mut show_horizontal = false;
+        let mut show_vertical = self.style.overflow_y == Overflow::Scroll;
+        let mut show_horizontal = self.style.overflow_x == Overflow::Scroll;
         let mut content_region = inner_region;
         let mut placements = Vec::new();
         let mut virtual_width = 0;
@@ -523,8 +523,9 @@ impl<M> ScrollableContainer<M> {
                 Overflow::Hidden => false,
             };
 
-            let next_show_horizontal = needs_horizontal;
-            let next_show_vertical = needs_vertical;
+            // A scrollbar stays once it was needed, so that the last round lays out what is drawn
+            let next_show_horizontal = show_horizontal || needs_horizontal;
+            let next_show_vertical = show_vertical || needs_vertical;
 
             if next_show_horizontal == show_horizontal && next_show_vertical == show_vertical {
                 break;
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 1ac146e..66fce7d 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -63,6 +63,8 @@ pub struct Screen<M> {
     vertical_breakpoints: &'static [Breakpoint],
     /// Viewport of the last render, so that mouse events see the layout that was drawn.
     rendered_viewport: Cell<Option<layouts::Viewport>>,
+    /// Whether the (vertical, horizontal) scrollbars are part of the current layout.
+    scrollbars_shown: Cell<(bool, bool)>,
 }
 
 impl<M> Screen<M> {
@@ -80,6 +82,7 @@ impl<M> Screen<M> {
             horizontal_breakpoints: DEFAULT_HORIZONTAL_BREAKPOINTS,
             vertical_breakpoints: DEFAULT_VERTICAL_BREAKPOINTS,
             rendered_viewport: Cell::new(None),
+            scrollbars_shown: Cell::new((false, false)),
         }
     }
 
@@ -211,62 +214,54 @@ impl<M> Screen<M> {
         inner_region: Region,
         viewport: layouts::Viewport,
     ) -> (Region, Vec<layouts::WidgetPlacement>) {
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-        let (virtual_width, virtual_height, _) =
-            self.compute_virtual_size(&initial_placements, inner_region);
-
         // Do not pad virtual size here; padding can fabricate overflow and force
         // Screen-level scrollbars even when content fits (differs from Python Textual).
 
-        let show_v_scrollbar = match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_height > inner_region.height,
-        };
-        let show_h_scrollbar = match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_width > inner_region.width,
-        };
-
+        // A scrollbar takes room from the content, which can make the other one necessary: lay out
+        // again until the scrollbars fit the layout. A scrollbar stays once it was needed.
         let style = &self.style.scrollbar;
-        let v_size = if show_v_scrollbar
-            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
-        {
-            style.size.vertical as i32
-        } else {
-            0
-        };
-        let h_size = if show_h_scrollbar {
-            style.size.horizontal as i32
-        } else {
-            0
-        };
-
-        let content_region = Region {
-            x: inner_region.x,
-            y: inner_region.y,
-            width: (inner_region.width - v_size).max(0),
-            height: (inner_region.height - h_size).max(0),
-        };
-
-        let (placements, recomputed) =
-            if show_v_scrollbar && content_region.width < inner_region.width {
-                let new_placements = self.compute_child_placements(content_region, viewport);
-                (new_placements, true)
+        let mut show_v_scrollbar = self.style.overflow_y == Overflow::Scroll;
+        let mut show_h_scrollbar = self.style.overflow_x == Overflow::Scroll;
+        let (content_region, placements, virtual_width, virtual_height) = loop {
+            let v_size = if show_v_scrollbar
+                || (style.gutter == ScrollbarGutter::Stable
+                    && self.style.overflow_y == Overflow::Auto)
+            {
+                style.size.vertical as i32
+            } else {
+                0
+            };
+            let h_size = if show_h_scrollbar {
+                style.size.horizontal as i32
             } else {
-                (initial_placements, false)
+                0
             };
 
-        let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
-            self.compute_virtual_size(&placements, content_region)
-        } else {
-            (virtual_width, virtual_height, false)
+            let content_region = Region {
+                x: inner_region.x,
+                y: inner_region.y,
+                width: (inner_region.width - v_size).max(0),
+                height: (inner_region.height - h_size).max(0),
+            };
+            let placements = self.compute_child_placements(content_region, viewport);
+            let (virtual_width, virtual_height, _) =
+                self.compute_virtual_size(&placements, content_region);
+
+            let next_v_scrollbar = show_v_scrollbar
+                || self.style.overflow_y == Overflow::Auto
+                    && virtual_height > content_region.height;
+            let next_h_scrollbar = show_h_scrollbar
+                || self.style.overflow_x == Overflow::Auto && virtual_width > content_region.width;
+            if (next_v_scrollbar, next_h_scrollbar) == (show_v_scrollbar, show_h_scrollbar) {
+                break (content_region, placements, virtual_width, virtual_height);
+            }
+            (show_v_scrollbar, show_h_scrollbar) = (next_v_scrollbar, next_h_scrollbar);
         };
+        self.scrollbars_shown.set((show_v_scrollbar, show_h_scrollbar));
 
         {
             let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
+            scroll.set_virtual_size(virtual_width, virtual_height);
             scroll.set_viewport(content_region.width, content_region.height);
         }
 
@@ -299,19 +294,11 @@ impl<M> Screen<M> {
     }
 
     fn show_vertical_scrollbar(&self) -> bool {
-        match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_y(),
-            Overflow::Hidden => false,
-        }
+        self.scrollbars_shown.get().0
     }
 
     fn show_horizontal_scrollbar(&self) -> bool {
-        match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_x(),
-            Overflow::Hidden => false,
-        }
+        self.scrollbars_shown.get().1
     }
 
     fn render_vertical_scrollbar(&self) -> bool {
-- 
2.43.0


From 6d0dc0b103542320addfc4c2e96e6a936ef9e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:40 +0000
Subject: [PATCH 40/69] fix: keep a scrollbar inside a container narrower than
 it

---
 crates/textual/src/containers/container.rs  | 2 ++
 crates/textual/src/containers/scrollable.rs | 3 +++
 crates/textual/src/widget/screen.rs         | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 9820a06..8b18268 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -250,6 +250,7 @@ impl<M> Container<M> {
             width: style.size.vertical as i32,
             height: (region.height - h_size).max(0),
         }
+        .intersection(&region)
     }
 
     /// Calculate the horizontal scrollbar region.
@@ -267,6 +268,7 @@ impl<M> Container<M> {
             width: (region.width - v_size).max(0),
             height: style.size.horizontal as i32,
         }
+        .intersection(&region)
     }
 
     /// Get colors for vertical scrollbar based on hover/drag state.
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index fe95351..5a450d5 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -250,6 +250,7 @@ impl<M> ScrollableContainer<M> {
             width: style.size.vertical as i32,
             height: (region.height - h_size).max(0),
         }
+        .intersection(&region)
     }
 
     /// Calculate the horizontal scrollbar region.
@@ -276,6 +277,7 @@ impl<M> ScrollableContainer<M> {
             width: (region.width - v_size).max(0),
             height: style.size.horizontal as i32,
         }
+        .intersection(&region)
     }
 
     /// Calculate the corner region.
@@ -287,6 +289,7 @@ impl<M> ScrollableContainer<M> {
             width: style.size.vertical as i32,
             height: style.size.horizontal as i32,
         }
+        .intersection(&region)
     }
 
     fn compute_child_placements(
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 66fce7d..8d17137 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -329,6 +329,7 @@ impl<M> Screen<M> {
             width: style.size.vertical as i32,
             height: (region.height - h_size).max(0),
         }
+        .intersection(&region)
     }
 
     fn horizontal_scrollbar_region(&self, region: Region) -> Region {
@@ -345,6 +346,7 @@ impl<M> Screen<M> {
             width: (region.width - v_size).max(0),
             height: style.size.horizontal as i32,
         }
+        .intersection(&region)
     }
 
     fn vertical_colors(&self) -> (RgbaColor, RgbaColor) {
-- 
2.43.0


From 48e74fde29b07f09f4a0f19f371c21cb73a302b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:25 +0000
Subject: [PATCH 41/69] fix: drag a scrollbar thumb by the size it is drawn
 with

---
 crates/textual/src/containers/scrollable.rs | 4 ++--
 crates/textual/src/widget/screen.rs         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 5a450d5..ac9d162 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1476,7 +1476,7 @@ impl<M> ScrollableContainer<M> {
             let virtual_size = scroll.virtual_height as f32;
             let window_size = scroll.viewport_height as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = ((window_size / virtual_size) * track_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
@@ -1496,7 +1496,7 @@ impl<M> ScrollableContainer<M> {
             let virtual_size = scroll.virtual_width as f32;
             let window_size = scroll.viewport_width as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = ((window_size / virtual_size) * track_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 8d17137..0361182 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -463,7 +463,7 @@ impl<M> Screen<M> {
             let virtual_size = scroll.virtual_height as f32;
             let window_size = scroll.viewport_height as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = ((window_size / virtual_size) * track_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
@@ -483,7 +483,7 @@ impl<M> Screen<M> {
             let virtual_size = scroll.virtual_width as f32;
             let window_size = scroll.viewport_width as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
+            let thumb_size = ((window_size / virtual_size) * track_size).max(1.0);
             let track_range = track_size - thumb_size;
 
             if track_range > 0.0 {
-- 
2.43.0


From c8d9d2cd0028506988a629e059fdc8826fbd118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:08 +0000
Subject: [PATCH 42/69] fix: keep the focus path in step with the widgets shown

Key events went to the wrong widget when a hidden widget came earlier in the
tree, Tab counted from a stale index after the tree changed, and a widget kept
its focus and hover state when it was hidden.
---
 crates/textual/src/containers.rs             | 16 ++----
 crates/textual/src/containers/container.rs   |  8 +--
 crates/textual/src/containers/grid.rs        |  8 +--
 crates/textual/src/containers/item_grid.rs   |  8 +--
 crates/textual/src/containers/scrollable.rs  |  8 +--
 crates/textual/src/lib.rs                    | 10 ++--
 crates/textual/src/tree.rs                   | 55 ++++++++++++++++----
 crates/textual/src/widget/app_widget.rs      |  4 +-
 crates/textual/src/widget/command_palette.rs |  2 +-
 crates/textual/src/widget/screen.rs          |  8 +--
 10 files changed, 64 insertions(+), 63 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 3577053..5127b92 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -222,9 +222,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().participates_in_layout() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -267,9 +265,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().participates_in_layout() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
@@ -398,9 +394,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().participates_in_layout() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -443,9 +437,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().participates_in_layout() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 8b18268..d845474 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1457,9 +1457,7 @@ Container {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1479,9 +1477,7 @@ Container {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index e3b3822..84a2555 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -415,9 +415,7 @@ Grid {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -437,9 +435,7 @@ Grid {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 9bfe8d1..6daffb8 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -299,9 +299,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -321,9 +319,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index ac9d162..46310e3 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1316,9 +1316,7 @@ ScrollableContainer {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1350,9 +1348,7 @@ ScrollableContainer {
     fn clear_hover(&mut self) {
         self.scrollbar_hover = None;
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 }
diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index cf6273d..37c7c8c 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -791,12 +791,10 @@ pub trait App {
 
                 // If the currently focused widget is no longer focusable (e.g. hidden modal),
                 // fall back to the first available focusable widget.
-                if let Some(is_focusable) = tree.with_focused(|widget| widget.is_focusable()) {
-                    if !is_focusable {
-                        if tree.set_focus_index(0) {
-                            last_focus_index = self.focus_index();
-                            needs_render = true;
-                        }
+                if !tree.is_focus_valid() {
+                    if tree.set_focus_index(0) {
+                        last_focus_index = self.focus_index();
+                        needs_render = true;
                     }
                 }
 
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 552e11c..76c81ae 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -138,7 +138,12 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let next = (self.current_focus_index + 1) % count;
+        let before = focusable_before(self.root.as_mut(), &self.focus_path.indices);
+        let next = if self.is_focus_valid() {
+            (before + 1) % count
+        } else {
+            before % count
+        };
         if self.set_focus_index(next) {
             Some(next)
         } else {
@@ -152,11 +157,8 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let prev = if self.current_focus_index == 0 {
-            count - 1
-        } else {
-            self.current_focus_index - 1
-        };
+        let before = focusable_before(self.root.as_mut(), &self.focus_path.indices);
+        let prev = if before == 0 { count - 1 } else { before - 1 };
         if self.set_focus_index(prev) {
             Some(prev)
         } else {
@@ -169,10 +171,8 @@ impl<M> WidgetTree<M> {
     /// This walks the tree to find the nth focusable widget and caches
     /// the path to it. Call this when focus changes.
     pub fn update_focus(&mut self, focus_index: usize) {
-        if focus_index == self.current_focus_index && !self.focus_path.indices.is_empty() {
-            return; // Path is already cached for this focus index
-        }
-
+        // The tree may have changed since the path was cached, so look the widget up
+        // even when the index is the same.
         self.focus_path.clear();
         self.current_focus_index = focus_index;
 
@@ -181,6 +181,19 @@ impl<M> WidgetTree<M> {
         find_focus_path_recursive(self.root.as_mut(), &mut self.focus_path, &mut remaining);
     }
 
+    /// Returns true if the cached focus path leads to a widget that can still hold the focus:
+    /// it is focusable, and neither it nor an ancestor is out of the layout.
+    pub fn is_focus_valid(&mut self) -> bool {
+        let mut current: &mut dyn Widget<M> = self.root.as_mut();
+        for &index in &self.focus_path.indices {
+            match current.get_child_mut(index) {
+                Some(child) if child.participates_in_layout() => current = child,
+                _ => return false,
+            }
+        }
+        current.is_focusable()
+    }
+
     /// Navigate to the focused widget and call the given function on it.
     ///
     /// Returns the result of the function, or None if the path is invalid.
@@ -543,7 +556,10 @@ fn find_focus_path_recursive<M>(
     for i in 0..child_count {
         path.push(i);
         if let Some(child) = widget.get_child_mut(i) {
-            if find_focus_path_recursive(child, path, remaining) {
+            // Children out of the layout are not part of the focus order
+            if child.participates_in_layout()
+                && find_focus_path_recursive(child, path, remaining)
+            {
                 return true; // Found in this subtree
             }
         }
@@ -553,6 +569,23 @@ fn find_focus_path_recursive<M>(
     false
 }
 
+/// Count the focusable widgets that come before the given path in focus order.
+fn focusable_before<M>(widget: &mut dyn Widget<M>, path: &[usize]) -> usize {
+    let Some((&index, rest)) = path.split_first() else {
+        return 0;
+    };
+    let mut before = usize::from(widget.is_focusable());
+    for i in 0..=index {
+        match widget.get_child_mut(i) {
+            Some(child) if !child.participates_in_layout() => {}
+            Some(child) if i < index => before += child.count_focusable(),
+            Some(child) => before += focusable_before(child, rest),
+            None => break,
+        }
+    }
+    before
+}
+
 /// Recursively compute the focus index for a widget with the given ID.
 fn find_focus_index_by_id<M>(
     widget: &mut dyn Widget<M>,
diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 9c0ef37..1d4c1e2 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -250,9 +250,7 @@ App {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index c533d7a..de055a3 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1863,7 +1863,7 @@ CommandPalette LoadingIndicator.--visible {
     }
 
     fn clear_focus(&mut self) {
-        self.focused = false;
+        self.set_focus(false);
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 0361182..1fe6939 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -880,9 +880,7 @@ Screen {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
@@ -930,9 +928,7 @@ Screen {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
-- 
2.43.0


From 12056de1f639ac8b5e64c07b139abb4ac9c05d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:48 +0000
Subject: [PATCH 43/69] fix: deliver a bubbling message to each ancestor once

Screen and AppWidget passed a message bubbling up back down to all of their
children, so an ancestor saw, and transformed, the same message again.
---
 crates/textual/src/widget/app_widget.rs | 8 --------
 crates/textual/src/widget/screen.rs     | 9 ---------
 2 files changed, 17 deletions(-)

diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 1d4c1e2..1264960 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -216,14 +216,6 @@ App {
         any_changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        let mut handled = None;
-        for child in &mut self.children {
-            handled = child.handle_message(envelope);
-        }
-        handled
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 1fe6939..dbe71dc 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -894,15 +894,6 @@ Screen {
         changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        for child in &mut self.children {
-            if let Some(msg) = child.handle_message(envelope) {
-                return Some(msg);
-            }
-        }
-        None
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
-- 
2.43.0


From fcdd0024e54ad5c9a48eb449990611aaf7b36200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:23 +0000
Subject: [PATCH 44/69] fix: let classes be changed on the containers that wrap
 another

Vertical, Horizontal, VerticalScroll and HorizontalScroll took classes when they
were built but ignored add_class and the like afterwards; delegating widgets also
lost titles, tooltips, link actions and the height of wrapped text.
---
 .../src/containers/horizontal_scroll.rs       | 27 ++++++++++
 .../textual/src/containers/vertical_scroll.rs | 27 ++++++++++
 crates/textual/src/macros.rs                  | 52 +++++++++++++++++++
 crates/textual/src/widget/label.rs            |  8 +++
 4 files changed, 114 insertions(+)

diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index fa28381..fdf1c7f 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -240,6 +240,33 @@ HorizontalScroll {
         "HorizontalScroll"
     }
 
+    fn add_class(&mut self, class: &str) {
+        if !self.has_class(class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if let Some(pos) = self.classes.iter().position(|c| c == class) {
+            self.classes.remove(pos);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
+
     fn on_resize(&mut self, size: Size) {
         self.inner.on_resize(size)
     }
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index 8f8e83d..d7f5cf7 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -237,6 +237,33 @@ VerticalScroll {
         "VerticalScroll"
     }
 
+    fn add_class(&mut self, class: &str) {
+        if !self.has_class(class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if let Some(pos) = self.classes.iter().position(|c| c == class) {
+            self.classes.remove(pos);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
+
     fn on_resize(&mut self, size: Size) {
         self.inner.on_resize(size)
     }
diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 4ed56fe..e7ce779 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -218,6 +218,58 @@ macro_rules! impl_widget_delegation {
             fn content_width_for_scroll(&self, available_width: u16) -> u16 {
                 self.$field.content_width_for_scroll(available_width)
             }
+
+            fn add_class(&mut self, class: &str) {
+                self.$field.add_class(class)
+            }
+
+            fn remove_class(&mut self, class: &str) {
+                self.$field.remove_class(class)
+            }
+
+            fn has_class(&self, class: &str) -> bool {
+                self.$field.has_class(class)
+            }
+
+            fn set_classes(&mut self, classes: &str) {
+                self.$field.set_classes(classes)
+            }
+
+            fn classes(&self) -> Vec<String> {
+                self.$field.classes()
+            }
+
+            fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+                self.$field.intrinsic_height_for_width(width)
+            }
+
+            fn take_pending_action(&self) -> Option<String> {
+                self.$field.take_pending_action()
+            }
+
+            fn tooltip(&self) -> Option<String> {
+                self.$field.tooltip()
+            }
+
+            fn set_tooltip(&mut self, tooltip: Option<String>) {
+                self.$field.set_tooltip(tooltip)
+            }
+
+            fn set_border_title(&mut self, title: &str) {
+                self.$field.set_border_title(title)
+            }
+
+            fn set_border_subtitle(&mut self, subtitle: &str) {
+                self.$field.set_border_subtitle(subtitle)
+            }
+
+            fn border_title(&self) -> Option<&str> {
+                self.$field.border_title()
+            }
+
+            fn border_subtitle(&self) -> Option<&str> {
+                self.$field.border_subtitle()
+            }
         }
     };
 }
diff --git a/crates/textual/src/widget/label.rs b/crates/textual/src/widget/label.rs
index a3d007d..336bafc 100644
--- a/crates/textual/src/widget/label.rs
+++ b/crates/textual/src/widget/label.rs
@@ -385,6 +385,14 @@ Label {
         self.inner.border_subtitle()
     }
 
+    fn tooltip(&self) -> Option<String> {
+        self.inner.tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.inner.set_tooltip(tooltip)
+    }
+
     fn on_resize(&mut self, size: crate::Size) {
         self.inner.on_resize(size)
     }
-- 
2.43.0


From 5896d867cd0d88babdce1333881edce178f347e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 45/69] fix: draw what a key or a message changed

After a key event, or a message from a timer or task, the screen was only drawn
again when the focus moved or the tree was rebuilt: typed text, toggled switches
and updated labels stayed invisible until the mouse moved.
---
 crates/textual/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 37c7c8c..676411d 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -263,6 +263,8 @@ where
         .unwrap_or_default();
 
     if !events.is_empty() {
+        // The handler may change any widget
+        needs_render = true;
         let event_ctx = AppContext::new(tx.clone());
         let mut ctx = EventContext::new(event_ctx, tree);
         for event in events {
@@ -884,16 +886,15 @@ pub trait App {
                                     )
                                     .unwrap_or(false);
                                 // Global focus navigation (Tab / Shift+Tab)
-                                let mut focus_changed = false;
                                 match key_event.code {
                                     KeyCode::Tab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_next().is_some();
+                                            tree.focus_next();
                                         }
                                     }
                                     KeyCode::BackTab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_previous().is_some();
+                                            tree.focus_previous();
                                         }
                                     }
                                     _ => {}
@@ -944,7 +945,8 @@ pub trait App {
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
-                                needs_render = needs_render || focus_changed;
+                                // The key may have changed any widget
+                                needs_render = true;
                             }
                             Some(Ok(Event::Resize(nw, nh))) => {
                                 // Handle terminal window resizing
@@ -1098,11 +1100,11 @@ pub trait App {
                         let event_ctx = AppContext::new(tx.clone());
                         let mut ctx = EventContext::new(event_ctx, &mut tree);
                         self.handle_message(envelope, &mut ctx);
-                        if drain_command_palette(self, &mut tree, &tx) {
-                            needs_render = true;
-                        }
+                        let _ = drain_command_palette(self, &mut tree, &tx);
                         // Check if app wants tree rebuild (Elm-style)
                         needs_recompose = self.needs_recompose();
+                        // The handler may have changed any widget
+                        needs_render = true;
                     }
                 }
             }
-- 
2.43.0


From 2ce3fb80de74d172275b86377c84070d3e96d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:23 +0000
Subject: [PATCH 46/69] fix: restore the terminal however an application ends

When a handler panicked, entering the alternate screen failed, or the future of
run_async was dropped, the terminal stayed in raw mode on the alternate screen
with the cursor hidden and mouse reporting on.
---
 crates/textual/src/lib.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 676411d..03d6e94 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -275,6 +275,21 @@ where
     needs_render
 }
 
+/// Restores the terminal's normal state when dropped.
+struct TerminalGuard;
+
+impl Drop for TerminalGuard {
+    fn drop(&mut self) {
+        let _ = execute!(
+            std::io::stdout(),
+            DisableMouseCapture,
+            cursor::Show,
+            terminal::LeaveAlternateScreen
+        );
+        let _ = terminal::disable_raw_mode();
+    }
+}
+
 /// The main application trait. Implement this to create a TUI application.
 ///
 /// The `Message` associated type (from `Compose`) defines the events your UI can produce.
@@ -652,6 +667,9 @@ pub trait App {
             let mut stdout = std::io::stdout();
             // Enable raw mode, mouse capture, and enter alternate screen
             terminal::enable_raw_mode()?;
+            // From here on the terminal is restored however this ends: on return, on an
+            // error, when a handler panics, and when the future is dropped
+            let guard = TerminalGuard;
             execute!(
                 stdout,
                 terminal::EnterAlternateScreen,
@@ -662,13 +680,7 @@ pub trait App {
             let result = self.event_loop_async().await;
 
             // Cleanup: Restore terminal state on exit
-            execute!(
-                stdout,
-                DisableMouseCapture,
-                cursor::Show,
-                terminal::LeaveAlternateScreen
-            )?;
-            terminal::disable_raw_mode()?;
+            drop(guard);
 
             result
         }
-- 
2.43.0


From a31cf9abe1ac841331b4369a3895edee30b2f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:38 +0000
Subject: [PATCH 47/69] fix: combine default stylesheets in a fixed order, base
 types first

The defaults of the widgets in an application were collected in a HashSet, so
rules of equal specificity, like those of ScrollableContainer and
VerticalScroll, won or lost at random from run to run.
---
 crates/textual/src/lib.rs     | 21 ++++++++++++++-------
 crates/textual/src/testing.rs | 20 ++++++--------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 03d6e94..da89ccf 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -35,7 +35,7 @@ pub use crossterm::event::{
 use crossterm::{cursor, execute, terminal};
 use futures::StreamExt;
 use std::cell::Cell;
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 use std::time::{Duration, Instant};
 use tokio::sync::mpsc;
 
@@ -117,10 +117,15 @@ use crate::{
 /// Walks the widget tree and collects unique `default_css()` strings from all widgets.
 /// These are prepended to the app's CSS to ensure widget defaults are applied with
 /// lower specificity than app-level styles.
-fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'static str>) {
+///
+/// Each string comes with the length of its widget's type hierarchy.
+pub(crate) fn collect_default_css<M>(
+    widget: &mut dyn Widget<M>,
+    collected: &mut Vec<(usize, &'static str)>,
+) {
     let default_css = widget.default_css();
-    if !default_css.is_empty() {
-        collected.insert(default_css);
+    if !default_css.is_empty() && !collected.iter().any(|(_, css)| *css == default_css) {
+        collected.push((widget.get_meta().type_names.len(), default_css));
     }
     widget.for_each_child(&mut |child| {
         collect_default_css(child, collected);
@@ -131,17 +136,19 @@ fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'
 ///
 /// Widget default CSS is prepended (lower specificity), so app CSS can override.
 fn build_combined_css<M: 'static>(root: &mut dyn Widget<M>, app_css: &str) -> String {
-    let mut defaults: HashSet<&'static str> = HashSet::new();
+    let mut defaults: Vec<(usize, &'static str)> = Vec::new();
     collect_default_css(root, &mut defaults);
 
-    // Concatenate defaults (order doesn't matter, app CSS will override)
+    // Base types first: rules of equal specificity are decided by their order, and a widget's
+    // own defaults override those of the types it derives from (app CSS overrides them all)
+    defaults.sort_by_key(|(depth, _)| *depth);
     let mut combined = String::new();
 
     // First add base widget CSS (universal defaults like scrollbar and link styling)
     combined.push_str(widget::screen::Screen::<M>::base_widget_css());
     combined.push('\n');
 
-    for css in defaults {
+    for (_, css) in defaults {
         combined.push_str(css);
         combined.push('\n');
     }
diff --git a/crates/textual/src/testing.rs b/crates/textual/src/testing.rs
index d28ac15..3a62832 100644
--- a/crates/textual/src/testing.rs
+++ b/crates/textual/src/testing.rs
@@ -3,34 +3,26 @@
 //! This module provides headless rendering without the event loop,
 //! useful for snapshot testing UI layouts.
 
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 
 use crate::{
     Size,
     canvas::Canvas,
+    collect_default_css,
     style_resolver::resolve_styles,
     tree::WidgetTree,
     widget::{Compose, Widget, screen::Screen},
 };
 
-/// Collect default CSS from a widget and all its descendants.
-fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'static str>) {
-    let default_css = widget.default_css();
-    if !default_css.is_empty() {
-        collected.insert(default_css);
-    }
-    widget.for_each_child(&mut |child| {
-        collect_default_css(child, collected);
-    });
-}
-
 /// Build a combined stylesheet from widget defaults and app CSS.
 pub fn build_combined_css<M>(root: &mut dyn Widget<M>, app_css: &str) -> String {
-    let mut defaults: HashSet<&'static str> = HashSet::new();
+    let mut defaults: Vec<(usize, &'static str)> = Vec::new();
     collect_default_css(root, &mut defaults);
+    // Base types first, as in a running application
+    defaults.sort_by_key(|(depth, _)| *depth);
 
     let mut combined = String::new();
-    for css in defaults {
+    for (_, css) in defaults {
         combined.push_str(css);
         combined.push('\n');
     }
-- 
2.43.0


From 188aa4be2b48905bd1b6a2275903c3e52d36f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:52 +0000
Subject: [PATCH 48/69] fix: style a rebuilt tree with the defaults of its own
 widgets

The stylesheet was built once from the first tree; widgets of types that only
appeared after a recompose were drawn without their default styles.
---
 crates/textual/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index da89ccf..41880ae 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -726,7 +726,7 @@ pub trait App {
             // 3. Collect widget default CSS and combine with app CSS
             // Widget defaults are prepended (lower specificity), app CSS overrides
             let combined_css = build_combined_css(tree.root_mut(), Self::CSS);
-            let stylesheet = tcss::parser::parse_stylesheet(&combined_css)
+            let mut stylesheet = tcss::parser::parse_stylesheet(&combined_css)
                 .map_err(|e| TextualError::InvalidCss(e.to_string()))?;
 
             // Set initial focus and cache the focus path
@@ -787,6 +787,11 @@ pub trait App {
                     // Re-apply resize to new tree so breakpoints are correct
                     tree.root_mut().on_resize(Size::new(cols, rows));
 
+                    // The new tree may hold widgets whose defaults were not needed before
+                    let combined_css = build_combined_css(tree.root_mut(), Self::CSS);
+                    stylesheet = tcss::parser::parse_stylesheet(&combined_css)
+                        .map_err(|e| TextualError::InvalidCss(e.to_string()))?;
+
                     tree.root_mut().clear_focus();
                     tree.root_mut().focus_nth(self.focus_index());
                     tree.update_focus(self.focus_index());
-- 
2.43.0


From 6afab39721dc1c45bcd3ed7feabf986a89b85354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:40 +0000
Subject: [PATCH 49/69] fix: send no interval message after it was cancelled

When a tick fell due by the time the task saw the cancellation, it was sent or
not at random.
---
 crates/textual/src/context.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/context.rs b/crates/textual/src/context.rs
index 7be3f27..655ed3f 100644
--- a/crates/textual/src/context.rs
+++ b/crates/textual/src/context.rs
@@ -148,6 +148,12 @@ impl<M: Send + 'static> AppContext<M> {
             log::debug!("INTERVAL: Task started, first tick at {:?}", start);
             loop {
                 tokio::select! {
+                    // A tick that falls due together with the cancellation is not delivered
+                    biased;
+                    _ = &mut cancel_rx => {
+                        log::debug!("INTERVAL: Cancelled");
+                        break; // Cancelled
+                    }
                     _ = ticker.tick() => {
                         log::debug!("INTERVAL: Tick! Sending message");
                         let envelope = MessageEnvelope::new(message_fn(), sender_id.as_deref(), &sender_type);
@@ -156,10 +162,6 @@ impl<M: Send + 'static> AppContext<M> {
                             break; // Receiver dropped
                         }
                     }
-                    _ = &mut cancel_rx => {
-                        log::debug!("INTERVAL: Cancelled");
-                        break; // Cancelled
-                    }
                 }
             }
         });
-- 
2.43.0


From 6411e7ff1ab7998e0033ff8a517d9a4788e97567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 50/69] fix: look at the focus once hidden widgets are known

The event loop checked that the focused widget can be focused before the styles of the changed
widgets were resolved, so a widget hidden by a rule kept the focus, and got the next key, until
the loop came round again.
---
 crates/textual/src/lib.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 41880ae..60c4940 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -282,6 +282,22 @@ where
     needs_render
 }
 
+/// Resolves the styles of the widgets that changed since they were last resolved.
+fn restyle<M>(
+    tree: &mut WidgetTree<M>,
+    stylesheet: &tcss::parser::StyleSheet,
+    theme: &tcss::types::Theme,
+) {
+    resolve_dirty_styles(
+        tree.root_mut(),
+        stylesheet,
+        theme,
+        &mut VecDeque::new(),
+        false,
+        &InheritedContext::from_theme(theme),
+    );
+}
+
 /// Restores the terminal's normal state when dropped.
 struct TerminalGuard;
 
@@ -815,6 +831,12 @@ pub trait App {
                     needs_render = true;
                 }
 
+                // Resolve styles only for dirty widgets, before the focus is looked at: a rule
+                // may have hidden the focused widget
+                if needs_render {
+                    restyle(&mut tree, &stylesheet, &theme);
+                }
+
                 // If the currently focused widget is no longer focusable (e.g. hidden modal),
                 // fall back to the first available focusable widget.
                 if !tree.is_focus_valid() {
@@ -825,16 +847,8 @@ pub trait App {
                 }
 
                 if needs_render {
-                    // Resolve styles only for dirty widgets
-                    let mut ancestors = VecDeque::new();
-                    resolve_dirty_styles(
-                        tree.root_mut(),
-                        &stylesheet,
-                        &theme,
-                        &mut ancestors,
-                        false,
-                        &InheritedContext::from_theme(&theme),
-                    );
+                    // The focus may have moved
+                    restyle(&mut tree, &stylesheet, &theme);
 
                     canvas.clear();
                     let region = Region::from_u16(0, 0, cols, rows);
-- 
2.43.0


From a450c826143b2854d4fb6eedf032c1686af84384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:06 +0000
Subject: [PATCH 51/69] fix: keep what a widget draws inside its region

---
 crates/textual/src/render_cache.rs            | 52 +++++++++++--------
 .../textual/src/widget/loading_indicator.rs   |  2 +
 crates/textual/src/widget/placeholder.rs      |  2 +
 crates/textual/src/widget/screen.rs           |  3 +-
 crates/textual/src/widget/switch.rs           |  4 ++
 5 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 88f5598..74eb2f8 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -388,24 +388,23 @@ impl RenderCache {
                 if self.has_left_border || self.has_right_border {
                     // For vertical keyline borders (no top/bottom), render titles in the first/last content rows
                     if !self.has_top_border && is_first_content_row && title.is_some() {
-                        return self.render_labeled_middle_row(
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
                             title.unwrap(),
                             self.style.border_title_align,
-                        );
-                    }
-                    if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
-                        return self.render_labeled_middle_row(
+                        )
+                    } else if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
                             subtitle.unwrap(),
                             self.style.border_subtitle_align,
-                        );
+                        )
+                    } else {
+                        // Has at least one side border
+                        self.render_partial_middle_row(&box_segs[1], content_line, width)
                     }
-
-                    // Has at least one side border
-                    self.render_partial_middle_row(&box_segs[1], content_line, width)
                 } else {
                     // No side borders - just content with padding
                     self.render_content_row(width, content_line)
@@ -417,33 +416,42 @@ impl RenderCache {
         };
 
         // Apply outline as final overlay (outline renders ON TOP of content)
-        self.apply_outline(base_strip, y, height, width)
+        let strip = self.apply_outline(base_strip, y, height, width);
+
+        // Borders wider than the widget must not reach beyond it
+        if strip.cell_length() > width {
+            strip.crop(0, width)
+        } else {
+            strip
+        }
     }
 
     /// Renders a content row without any border (just padding and content).
     fn render_content_row(&self, width: usize, content_line: Option<&Strip>) -> Strip {
-        let content_width = width.saturating_sub(self.padding_left + self.padding_right);
+        let padding_left = self.padding_left.min(width);
+        let padding_right = self.padding_right.min(width - padding_left);
+        let content_width = width - padding_left - padding_right;
         let content_strip = match content_line {
             Some(strip) => strip.adjust_cell_length(content_width, self.pad_style()),
             None => Strip::blank(content_width, self.pad_style()),
         };
 
-        if self.padding_left == 0 && self.padding_right == 0 {
+        if padding_left == 0 && padding_right == 0 {
             return content_strip;
         }
 
         // Build: padding_left + content + padding_right
         let mut segments = Vec::new();
-        if self.padding_left > 0 {
+        if padding_left > 0 {
             segments.push(crate::segment::Segment::blank(
-                self.padding_left,
+                padding_left,
                 self.pad_style(),
             ));
         }
         segments.extend(content_strip.segments().iter().cloned());
-        if self.padding_right > 0 {
+        if padding_right > 0 {
             segments.push(crate::segment::Segment::blank(
-                self.padding_right,
+                padding_right,
                 self.pad_style(),
             ));
         }
@@ -567,7 +575,9 @@ impl RenderCache {
         let left_border_width = if self.has_left_border { 1 } else { 0 };
         let right_border_width = if self.has_right_border { 1 } else { 0 };
         let inner_width = width.saturating_sub(left_border_width + right_border_width);
-        let content_width = inner_width.saturating_sub(self.padding_left + self.padding_right);
+        let padding_left = self.padding_left.min(inner_width);
+        let padding_right = self.padding_right.min(inner_width - padding_left);
+        let content_width = inner_width - padding_left - padding_right;
 
         let mut segments = Vec::new();
 
@@ -577,8 +587,8 @@ impl RenderCache {
         }
 
         // Left padding
-        if self.padding_left > 0 {
-            segments.push(Segment::blank(self.padding_left, self.pad_style()));
+        if padding_left > 0 {
+            segments.push(Segment::blank(padding_left, self.pad_style()));
         }
 
         // Content
@@ -589,8 +599,8 @@ impl RenderCache {
         segments.extend(content_strip.segments().iter().cloned());
 
         // Right padding
-        if self.padding_right > 0 {
-            segments.push(Segment::blank(self.padding_right, self.pad_style()));
+        if padding_right > 0 {
+            segments.push(Segment::blank(padding_right, self.pad_style()));
         }
 
         // Right border if present
diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index 129b3c4..565c129 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -83,6 +83,7 @@ LoadingIndicator {
             return;
         }
         let frame = SPINNER_FRAMES[self.frame];
+        canvas.push_clip(region);
         canvas.put_char(
             region.x,
             region.y,
@@ -91,6 +92,7 @@ LoadingIndicator {
             self.style.background.clone(),
             Default::default(),
         );
+        canvas.pop_clip();
     }
 
     fn desired_size(&self) -> Size {
diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 27d73bc..2c34c2f 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -368,6 +368,7 @@ Placeholder {
             if content_width <= 0 || content_height <= 0 {
                 return;
             }
+            canvas.push_clip(region);
             match self.variant {
                 PlaceholderVariant::Text => {
                     // Text variant: 1-cell padding on all sides, word wrap, block-centered
@@ -472,6 +473,7 @@ Placeholder {
                     }
                 }
             }
+            canvas.pop_clip();
         }
     }
 
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index dbe71dc..bb54145 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -603,7 +603,8 @@ Screen {
                     - self.style.scrollbar.size.horizontal as i32,
                 width: self.style.scrollbar.size.vertical as i32,
                 height: self.style.scrollbar.size.horizontal as i32,
-            };
+            }
+            .intersection(&inner_region);
             let mut corner = ScrollBarCorner::new(
                 self.style.scrollbar.size.vertical,
                 self.style.scrollbar.size.horizontal,
diff --git a/crates/textual/src/widget/switch.rs b/crates/textual/src/widget/switch.rs
index c7ffbf8..930b06b 100644
--- a/crates/textual/src/widget/switch.rs
+++ b/crates/textual/src/widget/switch.rs
@@ -179,6 +179,7 @@ where
             let style_bracket_l = if self.focused { ">[" } else { " [" };
             let style_bracket_r = if self.focused { " ]<" } else { " ] " };
             let display = format!("{}  {}  {}", style_bracket_l, frame, style_bracket_r);
+            canvas.push_clip(region);
             canvas.put_str(
                 region.x,
                 region.y,
@@ -187,6 +188,7 @@ where
                 self.style.background.clone(),
                 TextAttributes::default(),
             );
+            canvas.pop_clip();
             return;
         }
 
@@ -197,6 +199,7 @@ where
         let display = format!("{}{}{}", style_bracket_l, state_text, style_bracket_r);
 
         // This call sends the colors to the Canvas
+        canvas.push_clip(region);
         canvas.put_str(
             region.x,
             region.y,
@@ -205,6 +208,7 @@ where
             self.style.background.clone(),
             TextAttributes::default(),
         );
+        canvas.pop_clip();
     }
 
     fn set_style(&mut self, style: ComputedStyle) {
-- 
2.43.0


From c39e6cd270f526ae6d15e7807119f6fe4ebe856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:06 +0000
Subject: [PATCH 52/69] fix: saturate intrinsic sizes instead of overflowing

---
 crates/textual/src/containers/container.rs  | 33 ++++----
 crates/textual/src/containers/item_grid.rs  |  5 +-
 crates/textual/src/containers/scrollable.rs | 83 ++++++++++++++-------
 crates/textual/src/widget/placeholder.rs    | 25 ++++---
 crates/textual/src/widget/static_widget.rs  | 40 +++++-----
 5 files changed, 114 insertions(+), 72 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index d845474..62c8cbf 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -525,11 +525,14 @@ impl<M> Container<M> {
             let cache = RenderCache::new(&self.style);
             let border_h = cache.border_horizontal() as u16;
             let border_v = cache.border_vertical() as u16;
-            let padding_h =
-                self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-            let padding_v =
-                self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-            return Size::new(border_h + padding_h, border_v + padding_v);
+            let padding_h = (self.style.padding.left.value as u16)
+                .saturating_add(self.style.padding.right.value as u16);
+            let padding_v = (self.style.padding.top.value as u16)
+                .saturating_add(self.style.padding.bottom.value as u16);
+            return Size::new(
+                border_h.saturating_add(padding_h),
+                border_v.saturating_add(padding_v),
+            );
         }
 
         // Collect children sizes with margin collapsing support
@@ -655,10 +658,10 @@ impl<M> Container<M> {
         let cache = RenderCache::new(&self.style);
         let border_h = cache.border_horizontal() as u16;
         let border_v = cache.border_vertical() as u16;
-        let padding_h =
-            self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-        let padding_v =
-            self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+        let padding_h = (self.style.padding.left.value as u16)
+            .saturating_add(self.style.padding.right.value as u16);
+        let padding_v = (self.style.padding.top.value as u16)
+            .saturating_add(self.style.padding.bottom.value as u16);
 
         // If any child wants to fill available space, propagate that signal
         let final_width = if any_child_wants_fill_width {
@@ -1116,8 +1119,8 @@ Container {
         // Use per-axis border chrome to handle directional borders (hkey/vkey) correctly
         let cache = RenderCache::new(&self.style);
         let border_v = cache.border_vertical() as u16;
-        let padding_v =
-            self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+        let padding_v = (self.style.padding.top.value as u16)
+            .saturating_add(self.style.padding.bottom.value as u16);
         let result = total_height
             .saturating_add(border_v)
             .saturating_add(padding_v);
@@ -1201,8 +1204,8 @@ Container {
             // Use per-axis border chrome to handle directional borders (hkey/vkey) correctly
             let cache = RenderCache::new(&self.style);
             let border_h = cache.border_horizontal() as u16;
-            let padding_h =
-                self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
+            let padding_h = (self.style.padding.left.value as u16)
+                .saturating_add(self.style.padding.right.value as u16);
             total_width
                 .saturating_add(border_h)
                 .saturating_add(padding_h)
@@ -1267,8 +1270,8 @@ Container {
             // Use per-axis border chrome to handle directional borders (hkey/vkey) correctly
             let cache = RenderCache::new(&self.style);
             let border_h = cache.border_horizontal() as u16;
-            let padding_h =
-                self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
+            let padding_h = (self.style.padding.left.value as u16)
+                .saturating_add(self.style.padding.right.value as u16);
             total_width
                 .saturating_add(border_h)
                 .saturating_add(padding_h)
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 6daffb8..8f20b81 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -182,7 +182,10 @@ impl<M> Widget<M> for ItemGrid<M> {
     fn desired_size(&self) -> Size {
         // Return a reasonable minimum based on visible children
         let visible = self.visible_children() as u16;
-        Size::new(visible.max(1) * 10, visible.max(1) * 3)
+        Size::new(
+            visible.max(1).saturating_mul(10),
+            visible.max(1).saturating_mul(3),
+        )
     }
 
     fn get_meta(&self) -> WidgetMeta {
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 46310e3..4a02975 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -352,11 +352,14 @@ impl<M> ScrollableContainer<M> {
     fn calculate_intrinsic_size(&self) -> Size {
         if self.children.is_empty() {
             let border_size = if self.style.border.is_none() { 0 } else { 2 };
-            let padding_h =
-                self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-            let padding_v =
-                self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-            return Size::new(border_size + padding_h, border_size + padding_v);
+            let padding_h = (self.style.padding.left.value as u16)
+                .saturating_add(self.style.padding.right.value as u16);
+            let padding_v = (self.style.padding.top.value as u16)
+                .saturating_add(self.style.padding.bottom.value as u16);
+            return Size::new(
+                padding_h.saturating_add(border_size),
+                padding_v.saturating_add(border_size),
+            );
         }
 
         let mut total_width: u16 = 0;
@@ -406,8 +409,12 @@ impl<M> ScrollableContainer<M> {
             let margin_top = child_style.margin.top.value as u16;
             let margin_bottom = child_style.margin.bottom.value as u16;
 
-            let child_width_with_margins = capped_width + margin_left + margin_right;
-            let child_height_with_margins = capped_height + margin_top + margin_bottom;
+            let child_width_with_margins = capped_width
+                .saturating_add(margin_left)
+                .saturating_add(margin_right);
+            let child_height_with_margins = capped_height
+                .saturating_add(margin_top)
+                .saturating_add(margin_bottom);
 
             match self.style.layout {
                 LayoutDirection::Vertical => {
@@ -419,7 +426,9 @@ impl<M> ScrollableContainer<M> {
 
                     let margin_overlap = prev_margin_bottom.max(margin_top);
                     let effective_margin = margin_overlap;
-                    total_height += capped_height + effective_margin;
+                    total_height = total_height
+                        .saturating_add(capped_height)
+                        .saturating_add(effective_margin);
                     prev_margin_bottom = margin_bottom;
 
                     max_width = max_width.max(child_width_with_margins);
@@ -433,7 +442,9 @@ impl<M> ScrollableContainer<M> {
 
                     let margin_overlap = prev_margin_right.max(margin_left);
                     let effective_margin = margin_overlap;
-                    total_width += capped_width + effective_margin;
+                    total_width = total_width
+                        .saturating_add(capped_width)
+                        .saturating_add(effective_margin);
                     prev_margin_right = margin_right;
 
                     max_height = max_height.max(child_height_with_margins);
@@ -447,7 +458,7 @@ impl<M> ScrollableContainer<M> {
 
         match self.style.layout {
             LayoutDirection::Vertical => {
-                total_height += last_child_margin_bottom;
+                total_height = total_height.saturating_add(last_child_margin_bottom);
                 total_width = max_width;
                 if any_child_wants_fill_width {
                     total_width = u16::MAX;
@@ -456,17 +467,22 @@ impl<M> ScrollableContainer<M> {
                     total_height = u16::MAX;
                 }
                 let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+                let padding_h = (self.style.padding.left.value as u16)
+                    .saturating_add(self.style.padding.right.value as u16);
+                let padding_v = (self.style.padding.top.value as u16)
+                    .saturating_add(self.style.padding.bottom.value as u16);
                 Size::new(
-                    total_width.saturating_add(border_size + padding_h),
-                    total_height.saturating_add(border_size + padding_v + first_child_margin_top),
+                    total_width
+                        .saturating_add(border_size)
+                        .saturating_add(padding_h),
+                    total_height
+                        .saturating_add(border_size)
+                        .saturating_add(padding_v)
+                        .saturating_add(first_child_margin_top),
                 )
             }
             LayoutDirection::Horizontal => {
-                total_width += last_child_margin_right;
+                total_width = total_width.saturating_add(last_child_margin_right);
                 total_height = max_height;
                 if any_child_wants_fill_width {
                     total_width = u16::MAX;
@@ -475,24 +491,33 @@ impl<M> ScrollableContainer<M> {
                     total_height = u16::MAX;
                 }
                 let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+                let padding_h = (self.style.padding.left.value as u16)
+                    .saturating_add(self.style.padding.right.value as u16);
+                let padding_v = (self.style.padding.top.value as u16)
+                    .saturating_add(self.style.padding.bottom.value as u16);
                 Size::new(
-                    total_width.saturating_add(border_size + padding_h + first_child_margin_left),
-                    total_height.saturating_add(border_size + padding_v),
+                    total_width
+                        .saturating_add(border_size)
+                        .saturating_add(padding_h)
+                        .saturating_add(first_child_margin_left),
+                    total_height
+                        .saturating_add(border_size)
+                        .saturating_add(padding_v),
                 )
             }
             LayoutDirection::Grid => {
                 let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+                let padding_h = (self.style.padding.left.value as u16)
+                    .saturating_add(self.style.padding.right.value as u16);
+                let padding_v = (self.style.padding.top.value as u16)
+                    .saturating_add(self.style.padding.bottom.value as u16);
                 Size::new(
-                    max_width.saturating_add(border_size + padding_h),
-                    max_height.saturating_add(border_size + padding_v),
+                    max_width
+                        .saturating_add(border_size)
+                        .saturating_add(padding_h),
+                    max_height
+                        .saturating_add(border_size)
+                        .saturating_add(padding_v),
                 )
             }
         }
diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 2c34c2f..da4fdbe 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -482,10 +482,10 @@ Placeholder {
 
         // Calculate chrome (padding) for auto sizing
         // When height/width is auto, the widget should include padding in its desired size
-        let padding_h =
-            self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-        let padding_v =
-            self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+        let padding_h = (self.style.padding.left.value as u16)
+            .saturating_add(self.style.padding.right.value as u16);
+        let padding_v = (self.style.padding.top.value as u16)
+            .saturating_add(self.style.padding.bottom.value as u16);
 
         let content = self
             .get_display_content(&Region::default())
@@ -509,10 +509,10 @@ Placeholder {
                 | Unit::Height => {
                     u16::MAX // Signal "fill available space"
                 }
-                Unit::Auto => content_width + padding_h, // Content width + horizontal padding
+                Unit::Auto => content_width.saturating_add(padding_h), // Content width + horizontal padding
             }
         } else {
-            content_width + padding_h // Default width + padding
+            content_width.saturating_add(padding_h) // Default width + padding
         };
 
         // For height, match Python Textual behavior:
@@ -529,10 +529,10 @@ Placeholder {
                 | Unit::Height => {
                     u16::MAX // Signal "fill available space"
                 }
-                Unit::Auto => content_height + padding_v, // Content height + vertical padding
+                Unit::Auto => content_height.saturating_add(padding_v), // Content height + vertical padding
             }
         } else {
-            content_height + padding_v // Default: content height + padding
+            content_height.saturating_add(padding_v) // Default: content height + padding
         };
 
         Size::new(width, height)
@@ -544,14 +544,19 @@ Placeholder {
         let padding_left = self.style.padding.left.value as u16;
         let padding_right = self.style.padding.right.value as u16;
 
-        let content_width = width.saturating_sub(padding_left + padding_right).max(1);
+        let content_width = width
+            .saturating_sub(padding_left)
+            .saturating_sub(padding_right)
+            .max(1);
         let content = self
             .get_display_content(&Region::default())
             .unwrap_or_default();
         let lines = Self::word_wrap(&content, content_width as usize);
         let content_height = lines.len().max(1) as u16;
 
-        content_height + padding_top + padding_bottom
+        content_height
+            .saturating_add(padding_top)
+            .saturating_add(padding_bottom)
     }
 
     fn get_meta(&self) -> WidgetMeta {
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 5d727c3..b62f0c2 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -732,12 +732,14 @@ Static {
         let border_height = (if has_top { 1 } else { 0 }) + (if has_bottom { 1 } else { 0 });
 
         // Calculate padding contribution
-        let padding_width = style.padding.left.value as u16 + style.padding.right.value as u16;
-        let padding_height = style.padding.top.value as u16 + style.padding.bottom.value as u16;
+        let padding_width =
+            (style.padding.left.value as u16).saturating_add(style.padding.right.value as u16);
+        let padding_height =
+            (style.padding.top.value as u16).saturating_add(style.padding.bottom.value as u16);
 
         // Chrome (border + padding) to add for content-box
-        let chrome_width = border_width + padding_width;
-        let chrome_height = border_height + padding_height;
+        let chrome_width = padding_width.saturating_add(border_width);
+        let chrome_height = padding_height.saturating_add(border_height);
 
         let width = if let Some(w) = &style.width {
             use tcss::types::Unit;
@@ -746,7 +748,7 @@ Static {
                     // Apply box-sizing: border-box returns as-is, content-box adds chrome
                     match style.box_sizing {
                         BoxSizing::BorderBox => w.value as u16,
-                        BoxSizing::ContentBox => w.value as u16 + chrome_width,
+                        BoxSizing::ContentBox => (w.value as u16).saturating_add(chrome_width),
                     }
                 }
                 // Percentage/fraction units: signal "fill available space"
@@ -760,13 +762,17 @@ Static {
                 Unit::Auto => {
                     let text = self.text();
                     let content_width = text.lines().map(display_width).max().unwrap_or(0) as u16;
-                    content_width.saturating_add(style.line_pad.saturating_mul(2)) + chrome_width
+                    content_width
+                        .saturating_add(style.line_pad.saturating_mul(2))
+                        .saturating_add(chrome_width)
                 }
             }
         } else {
             let text = self.text();
             let content_width = text.lines().map(display_width).max().unwrap_or(0) as u16;
-            content_width.saturating_add(style.line_pad.saturating_mul(2)) + chrome_width
+            content_width
+                .saturating_add(style.line_pad.saturating_mul(2))
+                .saturating_add(chrome_width)
         };
 
         let height = if let Some(h) = &style.height {
@@ -776,7 +782,7 @@ Static {
                     // Apply box-sizing: border-box returns as-is, content-box adds chrome
                     match style.box_sizing {
                         BoxSizing::BorderBox => h.value as u16,
-                        BoxSizing::ContentBox => h.value as u16 + chrome_height,
+                        BoxSizing::ContentBox => (h.value as u16).saturating_add(chrome_height),
                     }
                 }
                 // Percentage/fraction units: signal "fill available space"
@@ -790,13 +796,13 @@ Static {
                 Unit::Auto => {
                     let text = self.text();
                     let content_height = count_lines_preserving_trailing(&text) as u16;
-                    content_height + chrome_height
+                    content_height.saturating_add(chrome_height)
                 }
             }
         } else {
             let text = self.text();
             let content_height = count_lines_preserving_trailing(&text) as u16;
-            content_height + chrome_height
+            content_height.saturating_add(chrome_height)
         };
 
         Size::new(width, height)
@@ -827,13 +833,13 @@ Static {
         let border_height = (if has_top { 1 } else { 0 }) + (if has_bottom { 1 } else { 0 });
 
         // Calculate padding contribution
-        let padding_width =
-            self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-        let padding_height =
-            self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
+        let padding_width = (self.style.padding.left.value as u16)
+            .saturating_add(self.style.padding.right.value as u16);
+        let padding_height = (self.style.padding.top.value as u16)
+            .saturating_add(self.style.padding.bottom.value as u16);
 
-        let chrome_width = border_width + padding_width;
-        let chrome_height = border_height + padding_height;
+        let chrome_width = padding_width.saturating_add(border_width);
+        let chrome_height = padding_height.saturating_add(border_height);
 
         let content_width = width
             .saturating_sub(chrome_width)
@@ -857,7 +863,7 @@ Static {
         };
 
         let content_height = lines.len().max(1) as u16;
-        content_height + chrome_height
+        content_height.saturating_add(chrome_height)
     }
 
     fn get_meta(&self) -> WidgetMeta {
-- 
2.43.0


From e65b6aede5a9c75f64c04ca08c528a1f463be6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:04 +0000
Subject: [PATCH 53/69] fix: draw each edge of a border or outline in its own
 kind and color

---
 crates/textual/src/render_cache.rs | 184 ++++++-----------------------
 1 file changed, 37 insertions(+), 147 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 74eb2f8..428ebe5 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -3,13 +3,11 @@
 //! This module provides the `RenderCache` struct which orchestrates rendering
 //! a widget line-by-line, handling borders and content placement.
 
-use tcss::types::border::BorderKind;
-use tcss::types::{AlignHorizontal, ComputedStyle};
+use tcss::types::border::{Border, BorderEdge, BorderKind};
+use tcss::types::{AlignHorizontal, ComputedStyle, RgbaColor};
 
 use crate::border_box::{BoxSegments, get_box};
-use crate::border_chars::{get_border_chars, get_border_locations};
 use crate::border_render::{render_label_in_row, render_row};
-use crate::segment::Segment;
 use crate::segment::Style;
 use crate::strip::Strip;
 
@@ -75,14 +73,10 @@ impl RenderCache {
         };
         let has_border = has_top_border || has_right_border || has_bottom_border || has_left_border;
 
-        // Use top border kind as the primary style (for box character selection)
-        let border_kind = style.border.top.kind;
-
         // Use the centralized effective_background from ComputedStyle
         let effective_bg = style.effective_background();
 
         let border_box = if has_border {
-            let border_type = border_kind_to_str(border_kind);
             let effective_opacity = style.opacity * style.opacity;
             let resolve_edge_color =
                 |edge: &tcss::types::border::BorderEdge| -> Option<tcss::types::RgbaColor> {
@@ -94,45 +88,12 @@ impl RenderCache {
                     }
                 };
 
-            let top_color = resolve_edge_color(&style.border.top);
-            let right_color = resolve_edge_color(&style.border.right);
-            let bottom_color = resolve_edge_color(&style.border.bottom);
-            let left_color = resolve_edge_color(&style.border.left);
-
-            let make_style =
-                |fg: Option<tcss::types::RgbaColor>, bg: Option<tcss::types::RgbaColor>| Style {
-                    fg,
-                    bg,
-                    ..Default::default()
-                };
-
-            let top_inner = make_style(top_color.clone(), effective_bg.clone());
-            let top_outer = make_style(top_color.clone(), style.inherited_background.clone());
-            let bottom_inner = make_style(bottom_color.clone(), effective_bg.clone());
-            let bottom_outer = make_style(bottom_color.clone(), style.inherited_background.clone());
-            let left_inner = make_style(left_color.clone(), effective_bg.clone());
-            let left_outer = make_style(left_color.clone(), style.inherited_background.clone());
-            let right_inner = make_style(right_color.clone(), effective_bg.clone());
-            let right_outer = make_style(right_color.clone(), style.inherited_background.clone());
-
-            let uniform =
-                top_color == bottom_color && top_color == left_color && top_color == right_color;
-
-            if uniform {
-                Some(get_box(border_type, &top_inner, &top_outer))
-            } else {
-                Some(build_border_box_per_edge(
-                    border_type,
-                    &top_inner,
-                    &top_outer,
-                    &bottom_inner,
-                    &bottom_outer,
-                    &left_inner,
-                    &left_outer,
-                    &right_inner,
-                    &right_outer,
-                ))
-            }
+            Some(build_border_box_per_edge(
+                &style.border,
+                resolve_edge_color,
+                effective_bg.as_ref(),
+                style.inherited_background.as_ref(),
+            ))
         } else {
             None
         };
@@ -170,30 +131,12 @@ impl RenderCache {
 
         // Build outline box segments if any outline edge is visible
         let outline_box = if has_outline {
-            let outline_kind = style.outline.top.kind;
-            let outline_type = border_kind_to_str(outline_kind);
             // Outline color, falling back to text color
-            let outline_color = style
-                .outline
-                .top
-                .color
-                .clone()
-                .or_else(|| style.color.clone());
-            let outline_inner_style = Style {
-                fg: outline_color.clone(),
-                bg: effective_bg.clone(),
-                ..Default::default()
-            };
-            // Outer style uses inherited/parent background
-            let outline_outer_style = Style {
-                fg: outline_color.clone(),
-                bg: style.inherited_background.clone(),
-                ..Default::default()
-            };
-            Some(get_box(
-                outline_type,
-                &outline_inner_style,
-                &outline_outer_style,
+            Some(build_border_box_per_edge(
+                &style.outline,
+                |edge| edge.color.clone().or_else(|| style.color.clone()),
+                effective_bg.as_ref(),
+                style.inherited_background.as_ref(),
             ))
         } else {
             None
@@ -768,89 +711,36 @@ fn border_kind_to_str(kind: BorderKind) -> &'static str {
 }
 
 fn build_border_box_per_edge(
-    border_type: &str,
-    top_inner: &Style,
-    top_outer: &Style,
-    bottom_inner: &Style,
-    bottom_outer: &Style,
-    left_inner: &Style,
-    left_outer: &Style,
-    right_inner: &Style,
-    right_outer: &Style,
+    border: &Border,
+    edge_color: impl Fn(&BorderEdge) -> Option<RgbaColor>,
+    inner_bg: Option<&RgbaColor>,
+    outer_bg: Option<&RgbaColor>,
 ) -> [BoxSegments; 3] {
-    let chars = get_border_chars(border_type);
-    let locations = get_border_locations(border_type);
-
-    let style_for_zone = |zone: u8, inner: &Style, outer: &Style| -> Style {
-        match zone {
-            0 => inner.clone(),
-            1 => outer.clone(),
-            2 => Style {
-                fg: inner.fg.clone(),
-                bg: outer.bg.clone(),
-                reverse: true,
-                ..inner.clone()
-            },
-            3 => Style {
-                fg: outer.fg.clone(),
-                bg: inner.bg.clone(),
-                reverse: true,
-                ..outer.clone()
-            },
-            _ => inner.clone(),
-        }
-    };
-
-    let build_row = |row_idx: usize,
-                     left_in: &Style,
-                     left_out: &Style,
-                     fill_in: &Style,
-                     fill_out: &Style,
-                     right_in: &Style,
-                     right_out: &Style|
-     -> BoxSegments {
-        let left_char = chars[row_idx][0];
-        let fill_char = chars[row_idx][1];
-        let right_char = chars[row_idx][2];
-
-        let left_loc = locations[row_idx][0];
-        let fill_loc = locations[row_idx][1];
-        let right_loc = locations[row_idx][2];
-
-        let left_style = style_for_zone(left_loc, left_in, left_out);
-        let fill_style = style_for_zone(fill_loc, fill_in, fill_out);
-        let right_style = style_for_zone(right_loc, right_in, right_out);
-
-        (
-            Segment::styled(left_char.to_string(), left_style),
-            Segment::styled(fill_char.to_string(), fill_style),
-            Segment::styled(right_char.to_string(), right_style),
+    let edge_box = |edge: &BorderEdge| {
+        let style = |bg: Option<&RgbaColor>| Style {
+            fg: edge_color(edge),
+            bg: bg.cloned(),
+            ..Default::default()
+        };
+        get_box(
+            border_kind_to_str(edge.kind),
+            &style(inner_bg),
+            &style(outer_bg),
         )
     };
 
-    let top_row = build_row(
-        0, top_inner, top_outer, top_inner, top_outer, top_inner, top_outer,
-    );
-    let middle_row = build_row(
-        1,
-        left_inner,
-        left_outer,
-        top_inner,
-        top_outer,
-        right_inner,
-        right_outer,
-    );
-    let bottom_row = build_row(
-        2,
-        bottom_inner,
-        bottom_outer,
-        bottom_inner,
-        bottom_outer,
-        bottom_inner,
-        bottom_outer,
+    let [top_row, ..] = edge_box(&border.top);
+    let [_, (left, left_fill, _), _] = edge_box(&border.left);
+    let [_, (_, right_fill, right), _] = edge_box(&border.right);
+    let [.., bottom_row] = edge_box(&border.bottom);
+
+    let has_left = !matches!(
+        border.left.kind,
+        BorderKind::None | BorderKind::Hidden | BorderKind::Hkey
     );
+    let fill = if has_left { left_fill } else { right_fill };
 
-    [top_row, middle_row, bottom_row]
+    [top_row, (left, fill, right), bottom_row]
 }
 
 #[cfg(test)]
-- 
2.43.0


From a96422e444fbb2e77017e79fd1186e273935f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:04 +0000
Subject: [PATCH 54/69] fix: tell translucent colors and text styles apart in
 the border cache

---
 crates/textual/src/border_box.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/border_box.rs b/crates/textual/src/border_box.rs
index bcb0b9c..ad3787b 100644
--- a/crates/textual/src/border_box.rs
+++ b/crates/textual/src/border_box.rs
@@ -8,6 +8,8 @@ use once_cell::sync::Lazy;
 use std::collections::HashMap;
 use std::sync::RwLock;
 
+use tcss::types::RgbaColor;
+
 use crate::border_chars::{get_border_chars, get_border_locations};
 use crate::segment::{Segment, Style};
 
@@ -22,18 +24,31 @@ struct BoxCacheKey {
     outer_style_key: StyleKey,
 }
 
-/// Simplified style key for caching (colors only, not all attributes).
+/// The parts of a color that show.
+type ColorKey = (u8, u8, u8, u32, Option<u8>);
+
+/// Style key for caching: everything that shows.
 #[derive(Hash, PartialEq, Eq, Clone, Debug, Default)]
 struct StyleKey {
-    fg: Option<(u8, u8, u8)>,
-    bg: Option<(u8, u8, u8)>,
+    fg: Option<ColorKey>,
+    bg: Option<ColorKey>,
+    attrs: [bool; 6],
 }
 
 impl From<&Style> for StyleKey {
     fn from(style: &Style) -> Self {
+        let color = |c: &RgbaColor| (c.r, c.g, c.b, c.a.to_bits(), c.ansi);
         Self {
-            fg: style.fg.as_ref().map(|c| (c.r, c.g, c.b)),
-            bg: style.bg.as_ref().map(|c| (c.r, c.g, c.b)),
+            fg: style.fg.as_ref().map(color),
+            bg: style.bg.as_ref().map(color),
+            attrs: [
+                style.bold,
+                style.dim,
+                style.italic,
+                style.underline,
+                style.strike,
+                style.reverse,
+            ],
         }
     }
 }
-- 
2.43.0


From 1e4c0054b36acaac5a39577b464e3d3c480799fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:04 +0000
Subject: [PATCH 55/69] fix: keep the right corner when a border label does not
 fit

---
 crates/textual/src/border_render.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/border_render.rs b/crates/textual/src/border_render.rs
index 2919ddc..e47558e 100644
--- a/crates/textual/src/border_render.rs
+++ b/crates/textual/src/border_render.rs
@@ -131,7 +131,8 @@ pub(crate) fn render_label_in_row(
         if remaining > 0 {
             segments.push(repeat_char_segment(fill, remaining));
         }
-        return Strip::from_segments(segments);
+        // At tiny widths not even the ellipsis fits
+        return Strip::from_segments(segments).crop(0, width);
     }
 
     // Calculate padding based on alignment (label_len already includes 2 for spaces)
-- 
2.43.0


From c4ba10be6e303f15499ba40c9ebc535f0f161cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:04 +0000
Subject: [PATCH 56/69] fix: hit links below a title that takes a content row

---
 crates/textual/src/widget/static_widget.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index b62f0c2..2041be7 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -394,12 +394,10 @@ impl<M> Static<M> {
     }
 
     /// Extract link regions from rendered content for hit testing.
-    fn extract_link_regions(&self, lines: &[Strip], cache: &RenderCache) {
+    fn extract_link_regions(&self, lines: &[Strip], cache: &RenderCache, content_start: usize) {
         let mut regions = Vec::new();
         let border_left = cache.border_left();
-        let border_top = cache.border_top();
         let padding_left = cache.padding_left();
-        let padding_top = cache.padding_top();
 
         for (row_idx, strip) in lines.iter().enumerate() {
             let mut col = 0;
@@ -411,7 +409,7 @@ impl<M> Static<M> {
                     regions.push(LinkRegion {
                         action: action.to_string(),
                         // Account for border and padding offsets
-                        row: row_idx + border_top + padding_top,
+                        row: row_idx + content_start,
                         start_col: col + border_left + padding_left,
                         end_col: col + seg_width + border_left + padding_left,
                     });
@@ -555,12 +553,12 @@ Static {
         // 4b. Extract link regions from content for hit testing
         // Store the render region for coordinate translation in mouse events
         *self.last_render_region.borrow_mut() = Some(region);
-        self.extract_link_regions(&aligned_lines, &cache);
 
         // 5. Calculate content region boundaries (accounting for borders and padding)
         let border_top = cache.border_top();
         let border_bottom = cache.border_bottom();
         let content_start = border_top + cache.padding_top() + reserve_top;
+        self.extract_link_regions(&aligned_lines, &cache, content_start);
         let content_end =
             height.saturating_sub(border_bottom + cache.padding_bottom() + reserve_bottom);
 
-- 
2.43.0


From e48c877f7dc7eaa1b08439b6d3b5fc8e4af2ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:04 +0000
Subject: [PATCH 57/69] fix: draw border labels on the background of their box

---
 crates/textual/src/containers/container.rs | 6 +++---
 crates/textual/src/widget/static_widget.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 62c8cbf..6d2f61f 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -735,17 +735,17 @@ Container {
         };
 
         // Use border-title-background if set, otherwise fall back to widget background
-        // Note: Background opacity is already handled through effective_background()
+        // (effective_background() includes opacity and tint, like the rest of the box)
         let title_bg = self
             .style
             .border_title_background
             .clone()
-            .or_else(|| self.style.background.clone());
+            .or_else(|| self.style.effective_background());
         let subtitle_bg = self
             .style
             .border_subtitle_background
             .clone()
-            .or_else(|| self.style.background.clone());
+            .or_else(|| self.style.effective_background());
 
         let title_style = Style {
             fg: title_fg,
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 2041be7..111a7eb 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -592,17 +592,17 @@ Static {
         };
 
         // Use border-title-background if set, otherwise fall back to widget background
-        // Note: Background opacity is already handled through effective_background()
+        // (effective_background() includes opacity and tint, like the rest of the box)
         let title_bg = self
             .style
             .border_title_background
             .clone()
-            .or_else(|| self.style.background.clone());
+            .or_else(|| self.style.effective_background());
         let subtitle_bg = self
             .style
             .border_subtitle_background
             .clone()
-            .or_else(|| self.style.background.clone());
+            .or_else(|| self.style.effective_background());
 
         let title_style = Style {
             fg: title_fg,
-- 
2.43.0


From 530ab28f8b257092ba2cdd2851e28d3fa46cd6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:14 +0000
Subject: [PATCH 58/69] fix: keep the palette's spinner off once every provider
 has answered

---
 crates/textual/src/widget/command_palette.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index de055a3..1a38f9d 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1241,6 +1241,10 @@ impl<M: 'static> CommandPalette<M> {
                 if generation != self.search_generation {
                     return false;
                 }
+                // The timer may have fired while the last results were queued
+                if self.completed_providers >= self.expected_providers {
+                    return false;
+                }
                 if self.list_visible {
                     self.show_busy = true;
                     if let Some(loading) = self.loading_mut() {
-- 
2.43.0


From 3091c419da545e6bb3e5d04b763601726b134edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:14 +0000
Subject: [PATCH 59/69] fix: drop the queued results of a palette search that
 was cancelled

---
 crates/textual/src/widget/command_palette.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 1a38f9d..db07dc2 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1073,6 +1073,8 @@ impl<M: 'static> CommandPalette<M> {
         }
         self.expected_providers = 0;
         self.completed_providers = 0;
+        // What the search has queued already is void
+        self.search_generation = self.search_generation.wrapping_add(1);
     }
 
     fn startup_providers(&mut self) {
@@ -1108,7 +1110,6 @@ impl<M: 'static> CommandPalette<M> {
         self.expected_providers = self.providers.len();
         self.clear_current = true;
         self.last_update = Instant::now();
-        self.search_generation = self.search_generation.wrapping_add(1);
         let generation = self.search_generation;
         let search_value = self.query.trim().to_string();
         if self.visible && self.selected_action.is_none() {
-- 
2.43.0


From e88658b6c457e7bba228855087f8fc9fc11831a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:14 +0000
Subject: [PATCH 60/69] fix: run the highlighted palette command while another
 search is under way

---
 crates/textual/src/widget/command_palette.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index db07dc2..4694ad2 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1102,7 +1102,6 @@ impl<M: 'static> CommandPalette<M> {
     fn start_search(&mut self, query: String, cursor: Option<usize>) {
         self.cancel_search();
         self.query = query;
-        self.selected = 0;
         self.selected_action = None;
         self.pending_entries.clear();
         self.sequence_counter = 0;
@@ -1286,6 +1285,7 @@ impl<M: 'static> CommandPalette<M> {
         }
         if self.clear_current {
             self.entries.clear();
+            self.selected = 0;
             self.clear_current = false;
         }
         self.entries.append(&mut self.pending_entries);
@@ -1761,7 +1761,6 @@ CommandPalette LoadingIndicator.--visible {
                     let after = input.value().to_string();
                     if after != before {
                         self.query = after;
-                        self.selected = 0;
                         self.selected_action = None;
                         self.start_search(self.query.clone(), None);
                     }
-- 
2.43.0


From 31da8cfd6c09691432921b5261d8b716f7b4b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:14 +0000
Subject: [PATCH 61/69] fix: end the palette search when a command is chosen

---
 crates/textual/src/widget/command_palette.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 4694ad2..5895f9d 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1536,6 +1536,7 @@ impl<M: 'static> CommandPalette<M> {
                 self.close_with_selected(true);
             }
         } else {
+            self.cancel_search();
             self.query = entry.text.clone();
             self.selected_action = entry.action;
             self.list_visible = false;
-- 
2.43.0


From 814980e847eccc7491cee1c614405492b471c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 62/69] fix: hide the palette's spinner when its last results
 come late

---
 crates/textual/src/widget/command_palette.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 5895f9d..9d05120 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1230,6 +1230,8 @@ impl<M: 'static> CommandPalette<M> {
                     if cleared {
                         self.refresh_results();
                     }
+                    // All results may have been listed before
+                    self.sync_busy_indicator();
 
                     if self.entries.is_empty() && !self.query.trim().is_empty() {
                         self.spawn_no_matches_timer(generation, true);
@@ -1362,7 +1364,10 @@ impl<M: 'static> CommandPalette<M> {
         if self.list_visible {
             self.emit_highlight();
         }
+        self.sync_busy_indicator();
+    }
 
+    fn sync_busy_indicator(&mut self) {
         let show_busy = self.show_busy;
         if let Some(loading) = self.loading_mut() {
             if show_busy {
-- 
2.43.0


From ed92d381c34998fa2b3a848de901b473666986b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 63/69] fix: ask palette providers only between their startup
 and shutdown

---
 crates/textual/src/widget/command_palette.rs | 87 +++++++++++++++-----
 1 file changed, 68 insertions(+), 19 deletions(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 9d05120..f54a256 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -19,7 +19,7 @@ use std::time::{Duration, Instant};
 use tcss::types::{Layout, Visibility};
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 use tokio::sync::Mutex;
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, watch};
 use tokio::task::JoinHandle;
 
 use crate::canvas::{Canvas, Region};
@@ -795,6 +795,41 @@ enum PaletteUpdate {
     },
 }
 
+struct ProviderState {
+    provider: Box<dyn Provider>,
+    running: bool,
+}
+
+/// A provider and its place in the order startup, searches, shutdown.
+struct ProviderSlot {
+    state: Arc<Mutex<ProviderState>>,
+    /// Closed once the startup or shutdown asked for last is over.
+    last_step: watch::Receiver<()>,
+}
+
+impl ProviderSlot {
+    fn new(provider: Box<dyn Provider>) -> Self {
+        Self {
+            state: Arc::new(Mutex::new(ProviderState {
+                provider,
+                running: false,
+            })),
+            last_step: watch::channel(()).1,
+        }
+    }
+
+    /// Queues a startup or shutdown behind the one asked for before: returns
+    /// what to wait for first, and what to drop afterwards.
+    fn next_step(&mut self) -> (watch::Receiver<()>, watch::Sender<()>) {
+        let (over, last_step) = watch::channel(());
+        (std::mem::replace(&mut self.last_step, last_step), over)
+    }
+}
+
+async fn step_over(mut step: watch::Receiver<()>) {
+    while step.changed().await.is_ok() {}
+}
+
 /// Command palette overlay widget.
 pub struct CommandPalette<M: 'static> {
     inner: Container<M>,
@@ -814,7 +849,7 @@ pub struct CommandPalette<M: 'static> {
     sequence_counter: u64,
     expected_providers: usize,
     completed_providers: usize,
-    providers: Vec<Arc<Mutex<Box<dyn Provider>>>>,
+    providers: Vec<ProviderSlot>,
     update_tx: mpsc::UnboundedSender<PaletteUpdate>,
     update_rx: mpsc::UnboundedReceiver<PaletteUpdate>,
     search_generation: u64,
@@ -974,10 +1009,10 @@ impl<M: 'static> CommandPalette<M> {
 
     pub fn set_providers(&mut self, providers: Vec<Box<dyn Provider>>) {
         self.cancel_search();
-        self.providers = providers
-            .into_iter()
-            .map(|provider| Arc::new(Mutex::new(provider)))
-            .collect();
+        if self.visible {
+            self.shutdown_providers();
+        }
+        self.providers = providers.into_iter().map(ProviderSlot::new).collect();
         self.expected_providers = self.providers.len();
         if self.visible {
             self.startup_providers();
@@ -1078,23 +1113,31 @@ impl<M: 'static> CommandPalette<M> {
     }
 
     fn startup_providers(&mut self) {
-        for provider in &self.providers {
-            let provider = Arc::clone(provider);
+        for slot in &mut self.providers {
+            let state = Arc::clone(&slot.state);
+            let (before, over) = slot.next_step();
             let match_style = self.match_style.clone();
             tokio::spawn(async move {
-                let mut provider = provider.lock().await;
-                provider.set_match_style(match_style);
-                provider.startup().await;
+                step_over(before).await;
+                let mut state = state.lock().await;
+                state.running = true;
+                state.provider.set_match_style(match_style);
+                state.provider.startup().await;
+                drop(over);
             });
         }
     }
 
     fn shutdown_providers(&mut self) {
-        for provider in &self.providers {
-            let provider = Arc::clone(provider);
+        for slot in &mut self.providers {
+            let state = Arc::clone(&slot.state);
+            let (before, over) = slot.next_step();
             tokio::spawn(async move {
-                let mut provider = provider.lock().await;
-                provider.shutdown().await;
+                step_over(before).await;
+                let mut state = state.lock().await;
+                state.running = false;
+                state.provider.shutdown().await;
+                drop(over);
             });
         }
     }
@@ -1132,16 +1175,22 @@ impl<M: 'static> CommandPalette<M> {
 
         let query = search_value.clone();
         let match_style = self.match_style.clone();
-        let providers = self.providers.clone();
 
-        for provider in providers {
-            let provider = Arc::clone(&provider);
+        for slot in &self.providers {
+            let state = Arc::clone(&slot.state);
+            let startup = slot.last_step.clone();
             let query = query.clone();
             let tx = self.update_tx.clone();
             let match_style = match_style.clone();
             let generation = generation;
             let handle = tokio::spawn(async move {
-                let mut provider = provider.lock().await;
+                step_over(startup).await;
+                let mut state = state.lock().await;
+                if !state.running {
+                    // Cancelled by a close that is already through
+                    return;
+                }
+                let provider = &mut state.provider;
                 provider.set_match_style(match_style);
                 let hits: Vec<CommandHit> = if query.is_empty() {
                     provider
-- 
2.43.0


From 16c68b9c661074fddf54178cb09d71fcdd3bf725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:56 +0000
Subject: [PATCH 64/69] fix: give half lines and three-armed heavy crosses the
 right glyphs

---
 crates/textual/src/box_drawing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/box_drawing.rs b/crates/textual/src/box_drawing.rs
index 13e9df5..b907407 100644
--- a/crates/textual/src/box_drawing.rs
+++ b/crates/textual/src/box_drawing.rs
@@ -114,8 +114,8 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     // Mixed cross junctions
     map.insert((1, 2, 1, 2), '┿'); // thin vertical, heavy horizontal
     map.insert((2, 1, 2, 1), '╂'); // heavy vertical, thin horizontal
-    map.insert((2, 2, 1, 2), '╈'); // heavy top/horizontal, thin bottom
-    map.insert((1, 2, 2, 2), '╇'); // thin top, heavy bottom/horizontal
+    map.insert((2, 2, 1, 2), '╇'); // heavy top/horizontal, thin bottom
+    map.insert((1, 2, 2, 2), '╈'); // thin top, heavy bottom/horizontal
     map.insert((2, 2, 2, 1), '╊'); // heavy top/bottom/right, thin left
     map.insert((2, 1, 2, 2), '╉'); // heavy top/bottom/left, thin right
 
@@ -130,12 +130,12 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     map.insert((2, 1, 0, 2), '┹'); // bottom T: heavy top/left, thin right
 
     // Half lines (for edge caps)
-    map.insert((0, 1, 0, 0), '╴'); // thin left half
-    map.insert((0, 0, 0, 1), '╶'); // thin right half
+    map.insert((0, 1, 0, 0), '╶'); // thin right half
+    map.insert((0, 0, 0, 1), '╴'); // thin left half
     map.insert((1, 0, 0, 0), '╵'); // thin top half
     map.insert((0, 0, 1, 0), '╷'); // thin bottom half
-    map.insert((0, 2, 0, 0), '╸'); // heavy left half
-    map.insert((0, 0, 0, 2), '╺'); // heavy right half
+    map.insert((0, 2, 0, 0), '╺'); // heavy right half
+    map.insert((0, 0, 0, 2), '╸'); // heavy left half
     map.insert((2, 0, 0, 0), '╹'); // heavy top half
     map.insert((0, 0, 2, 0), '╻'); // heavy bottom half
 
-- 
2.43.0


From 0aad9e0830fe5c5364f11fce7682523e088e9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:07 +0000
Subject: [PATCH 65/69] fix: scroll the keylines between a container's children
 along with them

---
 crates/textual/src/containers/container.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 6d2f61f..0d67995 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -396,11 +396,14 @@ impl<M> Container<M> {
     ///
     /// For horizontal layout: draws outer box + vertical dividers between children
     /// For vertical layout: draws outer box + horizontal dividers between children
+    ///
+    /// The dividers scroll with the children; the outer box stays.
     fn render_keylines(
         &self,
         canvas: &mut Canvas,
         region: Region,
         placements: &[layouts::WidgetPlacement],
+        (offset_x, offset_y): (i32, i32),
     ) {
         if placements.is_empty() {
             return;
@@ -424,8 +427,9 @@ impl<M> Container<M> {
 
                 // Add divider positions at the END of each child (which is the START of the next)
                 for placement in placements {
-                    let right_edge =
-                        (placement.region.x + placement.region.width - region.x) as usize;
+                    let right_edge = (placement.region.x + placement.region.width
+                        - offset_x
+                        - region.x) as usize;
                     if !col_positions.contains(&right_edge) && right_edge < region.width as usize {
                         col_positions.push(right_edge);
                     }
@@ -454,8 +458,9 @@ impl<M> Container<M> {
 
                 // Add divider positions at the END of each child (which is the START of the next)
                 for placement in placements {
-                    let bottom_edge =
-                        (placement.region.y + placement.region.height - region.y) as usize;
+                    let bottom_edge = (placement.region.y + placement.region.height
+                        - offset_y
+                        - region.y) as usize;
                     if !row_positions.contains(&bottom_edge) && bottom_edge < region.height as usize
                     {
                         row_positions.push(bottom_edge);
@@ -873,7 +878,7 @@ Container {
 
         // 7. Render keylines on top of children (if enabled)
         if !is_hidden && self.style.keyline.style != KeylineStyle::None {
-            self.render_keylines(canvas, content_region, &placements);
+            self.render_keylines(canvas, content_region, &placements, (offset_x, offset_y));
         }
 
         canvas.pop_clip();
-- 
2.43.0


From 05224435104d4983cb1fe13ea3e92e81a894cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 66/69] fix: count the blank cells around a Text placeholder's
 text in its automatic size

---
 crates/textual/src/widget/placeholder.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index da4fdbe..2c5b012 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -166,6 +166,14 @@ impl Placeholder {
         self.dirty = true;
     }
 
+    /// Blank cells kept on every side of the text (Text variant only).
+    fn text_padding(&self) -> u16 {
+        match self.variant {
+            PlaceholderVariant::Text => 1,
+            _ => 0,
+        }
+    }
+
     /// Get the display content based on the current variant.
     fn get_display_content(&self, region: &Region) -> Option<String> {
         match self.variant {
@@ -496,6 +504,8 @@ Placeholder {
             .max()
             .unwrap_or(0);
         let content_height = content.lines().count().max(1) as u16;
+        let content_width = content_width.saturating_add(2 * self.text_padding());
+        let content_height = content_height.saturating_add(2 * self.text_padding());
 
         // Check CSS dimensions - return u16::MAX for flexible units
         let width = if let Some(w) = &self.style.width {
@@ -544,9 +554,11 @@ Placeholder {
         let padding_left = self.style.padding.left.value as u16;
         let padding_right = self.style.padding.right.value as u16;
 
+        let text_padding = self.text_padding();
         let content_width = width
             .saturating_sub(padding_left)
             .saturating_sub(padding_right)
+            .saturating_sub(2 * text_padding)
             .max(1);
         let content = self
             .get_display_content(&Region::default())
@@ -555,6 +567,7 @@ Placeholder {
         let content_height = lines.len().max(1) as u16;
 
         content_height
+            .saturating_add(2 * text_padding)
             .saturating_add(padding_top)
             .saturating_add(padding_bottom)
     }
-- 
2.43.0


From fbd42bcdce7367efc679a65837cc0e800826052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:13 +0000
Subject: [PATCH 67/69] fix: keep tooltips next to the pointer and on the
 screen

---
 crates/textual/src/lib.rs            |  9 +------
 crates/textual/src/widget/tooltip.rs | 38 +++++++++++++++++++++++++---
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 60c4940..75bd3e8 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -873,14 +873,7 @@ pub trait App {
                                             "Tooltip",
                                             |tooltip| {
                                                 tooltip.show(text);
-                                                let tooltip_width =
-                                                    tooltip.desired_size().width as i32;
-                                                let mut x = mx - (tooltip_width / 2);
-                                                if x < 0 {
-                                                    x = 0;
-                                                }
-                                                let y = (my + 1).max(0);
-                                                tooltip.set_position(x, y);
+                                                tooltip.set_anchor(mx, my);
                                             },
                                         )
                                     {
diff --git a/crates/textual/src/widget/tooltip.rs b/crates/textual/src/widget/tooltip.rs
index c0c6769..87ee2b9 100644
--- a/crates/textual/src/widget/tooltip.rs
+++ b/crates/textual/src/widget/tooltip.rs
@@ -12,6 +12,8 @@ pub struct Tooltip<M> {
     inner: Static<M>,
     visible: bool,
     offset: (i32, i32),
+    /// The pointer's cell, when the tooltip is placed next to it
+    anchor: Option<(i32, i32)>,
 }
 
 impl<M: 'static> Tooltip<M> {
@@ -21,6 +23,7 @@ impl<M: 'static> Tooltip<M> {
             inner,
             visible: false,
             offset: (0, 0),
+            anchor: None,
         }
     }
 
@@ -38,8 +41,18 @@ impl<M: 'static> Tooltip<M> {
     }
 
     pub fn set_position(&mut self, x: i32, y: i32) {
-        if self.offset != (x, y) {
+        if self.offset != (x, y) || self.anchor.is_some() {
             self.offset = (x, y);
+            self.anchor = None;
+            self.inner.mark_dirty();
+        }
+    }
+
+    /// Place the tooltip next to the pointer at (x, y): centered under it, or
+    /// over it where there is no room below.
+    pub fn set_anchor(&mut self, x: i32, y: i32) {
+        if self.anchor != Some((x, y)) {
+            self.anchor = Some((x, y));
             self.inner.mark_dirty();
         }
     }
@@ -88,6 +101,9 @@ Tooltip {
             width = width.max(min_width);
         }
 
+        // A tooltip wider than the screen wraps its text earlier
+        let width = width.min(region.width);
+
         let mut height = if let Some(h) = &style.height {
             if h.unit == Unit::Auto {
                 self.inner.intrinsic_height_for_width(width.max(0) as u16) as i32
@@ -108,8 +124,24 @@ Tooltip {
             height = height.max(min_height);
         }
 
-        let tooltip_region =
-            Region::new(self.offset.0, self.offset.1, width, height).intersection(&region);
+        let (x, y) = match self.anchor {
+            // Below the pointer, or above it where there is no room below
+            Some((x, y)) => {
+                let above = y - height;
+                let fits_below = y + 1 + height <= region.y + region.height;
+                let y = if fits_below || above < region.y {
+                    y + 1
+                } else {
+                    above
+                };
+                (x - width / 2, y)
+            }
+            None => self.offset,
+        };
+        // Keep the whole tooltip in sight
+        let x = x.min(region.x + region.width - width).max(region.x);
+        let y = y.min(region.y + region.height - height).max(region.y);
+        let tooltip_region = Region::new(x, y, width, height).intersection(&region);
         if tooltip_region.is_empty() {
             return;
         }
-- 
2.43.0


From 46cfb7841de5f32c6837623f4285438f2a54cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:33 +0000
Subject: [PATCH 68/69] fix: forget a press on the header icon that was
 released elsewhere

---
 crates/textual/src/widget/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/textual/src/widget/header.rs b/crates/textual/src/widget/header.rs
index 3c19e8d..59c03d3 100644
--- a/crates/textual/src/widget/header.rs
+++ b/crates/textual/src/widget/header.rs
@@ -534,6 +534,11 @@ HeaderIcon:hover {
             self.hovered = false;
             self.inner.mark_dirty();
         }
+        // The pointer moves without a button held: a press released elsewhere is over.
+        if self.active {
+            self.active = false;
+            self.inner.mark_dirty();
+        }
     }
 
     fn set_active(&mut self, is_active: bool) -> bool {
-- 
2.43.0


From 04ec37955cd620b060613b75b79a7d14bbb10eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:33 +0000
Subject: [PATCH 69/69] fix: size auto-height containers for text that wraps in
 them

---
 crates/textual/src/containers/container.rs | 50 +++++++++++++++++++++-
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 0d67995..89253ae 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -524,6 +524,11 @@ impl<M> Container<M> {
 
     /// Calculate intrinsic size based on children and layout mode.
     fn calculate_intrinsic_size(&self) -> Size {
+        self.intrinsic_size_with_heights(&[])
+    }
+
+    /// Calculate intrinsic size, where some of the children have a known height.
+    fn intrinsic_size_with_heights(&self, known_heights: &[Option<u16>]) -> Size {
         if self.children.is_empty() {
             // Empty container: minimal size (account for border)
             // Use per-axis border chrome to handle directional borders (hkey/vkey) correctly
@@ -561,11 +566,14 @@ impl<M> Container<M> {
         let mut last_child_margin_right: u16 = 0;
         let mut is_first_h_child = true;
 
-        for child in &self.children {
+        for (index, child) in self.children.iter().enumerate() {
             if !child.participates_in_layout() {
                 continue;
             }
-            let child_size = child.desired_size();
+            let mut child_size = child.desired_size();
+            if let Some(height) = known_heights.get(index).copied().flatten() {
+                child_size.height = height;
+            }
             let child_style = child.get_style();
 
             // Check for "fill available space" signals
@@ -980,6 +988,44 @@ Container {
         Size::new(width, height)
     }
 
+    fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+        use tcss::types::Unit;
+
+        let desired = self.desired_size().height;
+        let auto = |height: &Option<tcss::types::Scalar>| {
+            height.as_ref().is_some_and(|h| h.unit == Unit::Auto)
+        };
+        if desired == u16::MAX
+            || self.style.height.is_some() && !auto(&self.style.height)
+            || self.effective_layout() == LayoutDirection::Grid
+        {
+            return desired;
+        }
+
+        // The children's text may wrap in this width: let the layout size them
+        let region = Region::from_u16(0, 0, width, desired);
+        let mut inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if self.style.overflow_y == Overflow::Scroll
+            || self.style.scrollbar.gutter == ScrollbarGutter::Stable
+        {
+            inner_region.width -= self.style.scrollbar.size.vertical as i32;
+        }
+        inner_region.width = inner_region.width.max(0);
+        let Size { width, height } = self.viewport;
+        let viewport = Viewport::from(Region::from_u16(0, 0, width, height));
+        let mut heights = vec![None; self.children.len()];
+        for placement in self.compute_child_placements(inner_region, viewport) {
+            let style = self.children[placement.child_index].get_style();
+            if auto(&style.height)
+                && style.dock.is_none()
+                && style.position != tcss::types::Position::Absolute
+            {
+                heights[placement.child_index] = Some(placement.region.height.max(0) as u16);
+            }
+        }
+        self.intrinsic_size_with_heights(&heights).height
+    }
+
     fn content_height_for_scroll(&self, available_width: u16, _available_height: u16) -> u16 {
         use tcss::types::Unit;
 
-- 
2.43.0

