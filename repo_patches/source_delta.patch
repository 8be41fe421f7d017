From 7fd37a79089ba7c9200e8b2885877bdb56bdec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:00 +0000
Subject: [PATCH 01/18] fix: reject patterns that can produce an empty match
 inside a string

---
 sds/src/validation.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index 89921b6..4400af5 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -1,6 +1,7 @@
 use crate::normalization::rust_regex_adapter::{convert_to_rust_regex, QUANTIFIER_LIMIT};
 use crate::parser::error::ParseError;
 use regex_automata::meta::{self};
+use regex_syntax::hir::{Hir, HirKind};
 use thiserror::Error;
 
 #[derive(Debug, PartialEq, Eq, Error)]
@@ -65,12 +66,36 @@ pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValida
     // This validates that the syntax is valid and normalizes behavior.
     let converted_pattern = convert_to_rust_regex(input)?;
     let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
-    if regex.is_match("") {
+    // Checking for a match on the empty string is not enough: assertions such as `\b` don't match
+    // the empty string, but they can still produce empty matches inside of other strings.
+    if regex.is_match("") || can_match_be_empty(&converted_pattern)? {
         return Err(RegexValidationError::MatchesEmptyString);
     }
     Ok(regex)
 }
 
+/// Whether the pattern can produce an empty match, in any string.
+fn can_match_be_empty(converted_pattern: &str) -> Result<bool, RegexValidationError> {
+    let hir = regex_syntax::ParserBuilder::new()
+        .utf8(false)
+        .build()
+        .parse(converted_pattern)
+        .map_err(|_| RegexValidationError::InvalidSyntax)?;
+    Ok(can_hir_be_empty(&hir))
+}
+
+// `Properties::minimum_len` can't be used here, since it's `None` for any pattern with a part that can never match.
+fn can_hir_be_empty(hir: &Hir) -> bool {
+    match hir.kind() {
+        HirKind::Empty | HirKind::Look(_) => true,
+        HirKind::Literal(_) | HirKind::Class(_) => false,
+        HirKind::Repetition(repetition) => repetition.min == 0 || can_hir_be_empty(&repetition.sub),
+        HirKind::Capture(capture) => can_hir_be_empty(&capture.sub),
+        HirKind::Concat(list) => list.iter().all(can_hir_be_empty),
+        HirKind::Alternation(list) => list.iter().any(can_hir_be_empty),
+    }
+}
+
 fn is_regex_within_complexity_limit(
     converted_pattern: &str,
     complexity_limit: usize,
-- 
2.43.0


From 99eba517a7fea0f981d8a737fa0772dca85337ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 02/18] fix: only remember matches of an excluded path that the
 rule would have reported there

---
 sds/src/scanner/regex_rule/compiled.rs | 45 +++++++++-----------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 9623b3e..52dd834 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -62,15 +62,23 @@ impl CompiledRule for RegexCompiledRule {
         true_positive_rule_idx: &[usize],
         should_kws_match_event_paths: bool,
     ) {
+        // Matches from excluded paths are saved and used to treat additional equal matches as false positives.
+        // Matches are checked against this `excluded_matches` set after all scanning has been done.
+        let mut match_emitter = |string_match: StringMatch| {
+            if exclusion_check.is_excluded(self.rule_index) {
+                excluded_matches.insert(content[string_match.start..string_match.end].to_string());
+            } else {
+                match_emitter.emit(string_match);
+            }
+        };
+
         match self.included_keywords {
             Some(ref included_keywords) => {
                 self.get_string_matches_with_included_keywords(
                     content,
                     path,
                     regex_caches,
-                    exclusion_check,
-                    excluded_matches,
-                    match_emitter,
+                    &mut match_emitter,
                     true_positive_rule_idx,
                     included_keywords,
                     should_kws_match_event_paths,
@@ -82,8 +90,6 @@ impl CompiledRule for RegexCompiledRule {
                     0,
                     regex_caches.get(&self.regex),
                     true,
-                    exclusion_check,
-                    excluded_matches,
                 );
                 for string_match in true_positive_search {
                     match_emitter.emit(string_match);
@@ -125,8 +131,6 @@ impl RegexCompiledRule {
         content: &str,
         path: &Path,
         regex_caches: &mut RegexCaches,
-        exclusion_check: &ExclusionCheck<'_>,
-        excluded_matches: &mut AHashSet<String>,
         match_emitter: &mut dyn MatchEmitter,
         true_positive_rule_idx: &[usize],
         included_keywords: &CompiledIncludedProximityKeywords,
@@ -139,8 +143,6 @@ impl RegexCompiledRule {
                 0,
                 regex_caches.get(&self.regex),
                 false,
-                exclusion_check,
-                excluded_matches,
             );
             for string_match in true_positive_search {
                 match_emitter.emit(string_match);
@@ -158,8 +160,6 @@ impl RegexCompiledRule {
                 included_keyword_match_start,
                 regex_caches.get(&self.regex),
                 false,
-                exclusion_check,
-                excluded_matches,
             );
 
             for true_positive_match in true_positive_search {
@@ -225,8 +225,6 @@ impl RegexCompiledRule {
                 0,
                 regex_caches.get(&self.regex),
                 false,
-                exclusion_check,
-                excluded_matches,
             );
 
             for string_match in true_positive_search {
@@ -241,8 +239,6 @@ impl RegexCompiledRule {
         start: usize,
         cache: &'a mut Cache,
         check_excluded_keywords: bool,
-        exclusion_check: &'a ExclusionCheck<'a>,
-        excluded_matches: &'a mut AHashSet<String>,
     ) -> TruePositiveSearch<'a> {
         TruePositiveSearch {
             rule: self,
@@ -250,8 +246,6 @@ impl RegexCompiledRule {
             start,
             cache,
             check_excluded_keywords,
-            exclusion_check,
-            excluded_matches,
         }
     }
 }
@@ -262,8 +256,6 @@ pub struct TruePositiveSearch<'a> {
     start: usize,
     cache: &'a mut Cache,
     check_excluded_keywords: bool,
-    exclusion_check: &'a ExclusionCheck<'a>,
-    excluded_matches: &'a mut AHashSet<String>,
 }
 
 impl<'a> Iterator for TruePositiveSearch<'a> {
@@ -294,17 +286,10 @@ impl<'a> Iterator for TruePositiveSearch<'a> {
                     // patterns that can match empty matches are rejected.
                     self.start = regex_match.end();
 
-                    if self.exclusion_check.is_excluded(self.rule.rule_index) {
-                        // Matches from excluded paths are saved and used to treat additional equal matches as false positives.
-                        // Matches are checked against this `excluded_matches` set after all scanning has been done.
-                        self.excluded_matches
-                            .insert(self.content[regex_match.range()].to_string());
-                    } else {
-                        return Some(StringMatch {
-                            start: regex_match.start(),
-                            end: regex_match.end(),
-                        });
-                    }
+                    return Some(StringMatch {
+                        start: regex_match.start(),
+                        end: regex_match.end(),
+                    });
                 }
             } else {
                 return None;
-- 
2.43.0


From f57b67bb235266292473f680032f8f6a2ba9aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 03/18] fix: allow a match to start where its included keyword
 starts

---
 sds/src/proximity_keywords/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..5d60438 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -128,7 +128,8 @@ pub fn is_index_within_prefix(
     target: usize,
     prefix_size: usize,
 ) -> bool {
-    debug_assert!(target > prefix_start);
+    // The match can start at the same index as the keyword
+    debug_assert!(target >= prefix_start);
     debug_assert!(content.is_char_boundary(prefix_start));
     debug_assert!(content.is_char_boundary(target));
 
-- 
2.43.0


From 6e357db0aac907a67c57b85bab871fc3656cca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 04/18] fix: find the last character of a keyword or path
 segment by character, not by byte

---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 5d60438..c36d927 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -327,7 +327,7 @@ where
         return;
     };
 
-    let kw_length = characters.len();
+    let kw_length = characters.chars().count();
 
     let mut previous = char;
     for (i, current) in characters_iter.enumerate() {
-- 
2.43.0


From 67358f2eacb8310b6f728b7ce9149b3a3ccdd02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:29 +0000
Subject: [PATCH 05/18] fix: look for excluded keywords in the right characters
 next to hyphens and underscores

---
 sds/src/proximity_keywords/excluded_keywords.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sds/src/proximity_keywords/excluded_keywords.rs b/sds/src/proximity_keywords/excluded_keywords.rs
index 1005c0c..aa7c7d3 100644
--- a/sds/src/proximity_keywords/excluded_keywords.rs
+++ b/sds/src/proximity_keywords/excluded_keywords.rs
@@ -46,13 +46,20 @@ fn contains_excluded_keyword_match(
     // at least 1 more char is always available since empty matches aren't allowed
     let prefix_end = next_char_index(content, match_start).unwrap_or(content.len());
 
-    let stripped_prefix =
-        content[prefix_start_info.start..prefix_end].replace(EXCLUDED_KEYWORDS_REMOVED_CHARS, "");
+    let prefix = &content[prefix_start_info.start..prefix_end];
+    let stripped_prefix = prefix.replace(EXCLUDED_KEYWORDS_REMOVED_CHARS, "");
 
-    // Subtracting one to exclude the last char which was added only for boundary checking
-    let span_end = prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0);
+    let span_end = if prefix.ends_with(EXCLUDED_KEYWORDS_REMOVED_CHARS) {
+        // the char added for boundary checking was already stripped
+        stripped_prefix.len()
+    } else {
+        // Subtracting one to exclude the last char which was added only for boundary checking
+        prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0)
+    };
 
-    let span_start = if prefix_start_info.used_all_chars {
+    let span_start = if prefix_start_info.used_all_chars
+        && !prefix.starts_with(EXCLUDED_KEYWORDS_REMOVED_CHARS)
+    {
         // an extra char was added for assertion checking, so it needs to be removed here
         next_char_index(&stripped_prefix, 0).unwrap_or(stripped_prefix.len())
     } else {
-- 
2.43.0


From 857556e270f769ff78f3a67cbfd50e705cf8b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 06/18] fix: an NHS number has exactly 10 digits

---
 sds/src/secondary_validation/nhs_check_digit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/nhs_check_digit.rs b/sds/src/secondary_validation/nhs_check_digit.rs
index c13125b..bb56541 100644
--- a/sds/src/secondary_validation/nhs_check_digit.rs
+++ b/sds/src/secondary_validation/nhs_check_digit.rs
@@ -2,6 +2,8 @@ use crate::secondary_validation::{get_previous_digit, Validator};
 
 pub struct NhsCheckDigit;
 
+const NHS_NUMBER_LENGTH: usize = 10;
+
 fn nhs_multiplier_from_number_idx(index: usize) -> u32 {
     11 - ((index + 1) as u32)
 }
@@ -17,7 +19,7 @@ impl Validator for NhsCheckDigit {
         let mut check_digit = 0;
 
         while let Some(digit) = get_previous_digit(&mut input_iter) {
-            if nb_digit > 10 {
+            if nb_digit >= NHS_NUMBER_LENGTH {
                 return false;
             }
             if nb_digit < 9 {
@@ -29,6 +31,10 @@ impl Validator for NhsCheckDigit {
             nb_digit += 1;
         }
 
+        if nb_digit != NHS_NUMBER_LENGTH {
+            return false;
+        }
+
         // Divide the total_sum by 11 and get the remainder
         let remainder = total_sum % 11;
 
-- 
2.43.0


From 0585eda8ad6ac2bfb322d2b66366aa21d21853e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 07/18] fix: pad the checksum of Github tokens with leading
 zeros

---
 sds/src/secondary_validation/github_token_checksum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/github_token_checksum.rs b/sds/src/secondary_validation/github_token_checksum.rs
index e26375b..727d110 100644
--- a/sds/src/secondary_validation/github_token_checksum.rs
+++ b/sds/src/secondary_validation/github_token_checksum.rs
@@ -22,7 +22,8 @@ impl Validator for GithubTokenChecksum {
 
         // extract the payload (everything except the last 6 chars)
         let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());
-        let computed_checksum_b62 = base62::encode(computed_checksum);
+        // the checksum is padded with leading zeros to always use 6 chars
+        let computed_checksum_b62 = format!("{:0>6}", base62::encode(computed_checksum));
         // check that the crc is the last 6 chars
         computed_checksum_b62 == last_part[last_part.len() - 6..]
     }
-- 
2.43.0


From 230e5a1388ea42ebde954b0ad5a634675e2efd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:27 +0000
Subject: [PATCH 08/18] fix: quantifiers on $ and \Z apply to the whole
 converted assertion

---
 sds/src/normalization/rust_regex_adapter.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 01cb4c8..152eed0 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -119,7 +119,7 @@ fn convert_ast(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
                 },
             },
             greedy: !repetition.quantifier.lazy,
-            ast: Box::new(convert_ast(&repetition.inner)?),
+            ast: Box::new(convert_repetition_inner(&repetition.inner)?),
         }),
         SdsAst::Assertion(assertion_type) => match assertion_type {
             SdsAssertionType::WordBoundary => {
@@ -261,6 +261,23 @@ fn convert_ast(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
     })
 }
 
+fn convert_repetition_inner(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
+    let ast = convert_ast(sds_ast)?;
+    Ok(match sds_ast {
+        // Some assertions are converted to multiple items (such as `\Z` -> `\n?\z`). These need to
+        // be grouped, otherwise the quantifier would only apply to the last item.
+        SdsAst::Assertion(_) => RegexAst::Group(RegexGroup {
+            span: span(),
+            kind: RegexGroupKind::NonCapturing(RegexFlags {
+                span: span(),
+                items: vec![],
+            }),
+            ast: Box::new(ast),
+        }),
+        _ => ast,
+    })
+}
+
 fn horizontal_whitespace(negated: bool) -> RegexClassBracketed {
     RegexClassBracketed {
         span: span(),
-- 
2.43.0


From c08e571d9d60a642d35f214165841d11eefbb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:31 +0000
Subject: [PATCH 09/18] fix: keep escaped and quoted non-ASCII whitespace under
 the x flag

---
 sds/src/normalization/rust_regex_adapter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 152eed0..87744f0 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -24,7 +24,6 @@ use regex_syntax::ast::{
 };
 use std::rc::Rc;
 
-const ASCII_WHITESPACE_CHARS: &[char] = &['\x0D', '\x0A', '\x09', '\x0C', '\x0B', '\x20'];
 pub const QUANTIFIER_LIMIT: u32 = 3000;
 /// This takes an SDS style regex pattern and converts it to a pattern
 /// compatible with the Rust `regex` crate.
@@ -455,7 +454,7 @@ fn convert_literal(literal: Literal, kind: LiteralKind) -> RegexLiteral {
         // used in a bracketed character class, all whitespace is hex encoded to ensure it
         // is never ignored.
         RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
-    } else if kind == LiteralKind::Normal && ASCII_WHITESPACE_CHARS.contains(&literal.c) {
+    } else if kind == LiteralKind::Normal && literal.c.is_whitespace() {
         // The HexBrace kind is usually preferred since it makes whitespace characters easier
         // to read, but escaping whitespace can change the behavior of the `x` (extended / verbose)
         // flag, so the format is kept for those
-- 
2.43.0


From fd7fc2e2f29971fd773cb1c5a7953d64ca71f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:52 +0000
Subject: [PATCH 10/18] fix: a quantifier that overflows exceeds the limit
 instead of matching literally

---
 sds/src/parser/regex_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 391d042..1ca4ac3 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -525,8 +525,9 @@ fn hex_digit(input: Input) -> ParseResult<char> {
 
 fn integer(input: Input) -> ParseResult<u32> {
     let (input, digits) = digit1(input)?;
-    let value =
-        u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?;
+    // The only possible error is an overflow. The value is saturated (instead of failing to parse) so
+    // it's rejected by the quantifier limit. Otherwise the quantifier would be parsed as literals.
+    let value = u32::from_str(digits.value).unwrap_or(u32::MAX);
     Ok((input, value))
 }
 
-- 
2.43.0


From 5d441e098e7a8cd022ce185e5e89e6af319fe4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:51 +0000
Subject: [PATCH 11/18] fix: validate_matches keeps the matches of rules
 without match validation

---
 sds/src/scanner/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..60ef3fd 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -394,6 +394,7 @@ impl Scanner {
         }
         // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
         let mut match_validator_rule_match_per_type = AHashMap::new();
+        let mut rule_matches_without_validation = vec![];
         for rule_match in rule_matches.drain(..) {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
@@ -404,6 +405,8 @@ impl Scanner {
                     .get_mut(match_validation_type)
                     .unwrap()
                     .push(rule_match);
+            } else {
+                rule_matches_without_validation.push(rule_match);
             }
         }
 
@@ -419,7 +422,8 @@ impl Scanner {
             },
         );
 
-        // Refill the rule_matches with the validated matches
+        // Refill the rule_matches with the validated matches, and the ones that can't be validated
+        rule_matches.append(&mut rule_matches_without_validation);
         for (_, mut matches) in match_validator_rule_match_per_type {
             rule_matches.append(&mut matches);
         }
-- 
2.43.0


From 7990227a2028be55bdd98f34e8778e7448ec81e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 12/18] fix: an AWS id that cannot be sent in a header is an
 error, not a panic

---
 sds/src/match_validation/aws_validator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 81fb851..96e1553 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -4,7 +4,7 @@ use crate::{CompiledRuleDyn, MatchStatus, RuleMatch};
 use ahash::AHashMap;
 use lazy_static::lazy_static;
 use rayon::prelude::*;
-use reqwest::Client;
+use reqwest::{header::HeaderValue, Client};
 
 use super::{
     config::{AwsConfig, AwsType, MatchValidationType},
@@ -139,6 +139,12 @@ impl MatchValidator for AwsValidator {
                 }
                 let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                 let match_id = match_id.as_ref().unwrap();
+                if HeaderValue::from_str(match_id).is_err() {
+                    // The id is sent as part of the authorization header
+                    *match_status =
+                        MatchStatus::Error("Invalid characters in aws_id".to_string());
+                    return;
+                }
                 // Let's reqwest the HTTP API endpoint to validate the matches
                 let mut datetime = chrono::Utc::now();
                 if self.config.forced_datetime_utc.is_some() {
-- 
2.43.0


From b8ded1143292cd51d287e9a3115de7e55704c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:12 +0000
Subject: [PATCH 13/18] fix: count the cache of a new regex in the total cache
 size

---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..1d50b53 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -127,10 +127,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0


From 509f40a9e6ab8fb74e603a9e202e782372780793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:07 +0000
Subject: [PATCH 14/18] fix: do not share compiled regexes between rules and
 keywords

---
 sds/src/proximity_keywords/mod.rs         |  6 ++--
 sds/src/scanner/regex_rule/regex_store.rs | 43 ++++++++++++++++++-----
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index c36d927..3856457 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -7,7 +7,7 @@ pub use crate::proximity_keywords::included_keywords::*;
 use crate::proximity_keywords::ProximityKeywordsValidationError::{
     EmptyKeyword, InvalidLookAheadCharacterCount, KeywordTooLong, TooManyKeywords,
 };
-use crate::scanner::regex_rule::{get_memoized_regex, SharedRegex};
+use crate::scanner::regex_rule::SharedRegex;
 use crate::{Labels, ProximityKeywordsConfig};
 use metrics::counter;
 use regex_automata::{meta, Input};
@@ -231,8 +231,8 @@ fn compile_keywords(
         .syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));
 
     Ok(Some((
-        get_memoized_regex(&content_pattern, |p| regex_builder.build(p)).unwrap(),
-        get_memoized_regex(&path_pattern, |p| regex_builder.build(p)).unwrap(),
+        SharedRegex::memoized_for_keywords(&content_pattern, |p| regex_builder.build(p)).unwrap(),
+        SharedRegex::memoized_for_keywords(&path_pattern, |p| regex_builder.build(p)).unwrap(),
     )))
 }
 
diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 1d50b53..490aaf3 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -27,6 +27,23 @@ impl Deref for SharedRegex {
     }
 }
 
+impl SharedRegex {
+    /// Same as `get_memoized_regex`, but for keywords, which never share a regex with a rule.
+    pub fn memoized_for_keywords<T>(
+        pattern: &str,
+        regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
+    ) -> Result<SharedRegex, T> {
+        get_memoized_regex_of_kind(RegexKind::Keywords, pattern, regex_factory, &REGEX_STORE)
+    }
+}
+
+/// The way a pattern is compiled. Different kinds create different regexes from the same pattern.
+#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+enum RegexKind {
+    Rule,
+    Keywords,
+}
+
 pub fn get_memoized_regex<T>(
     pattern: &str,
     regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
@@ -39,9 +56,19 @@ fn get_memoized_regex_with_custom_store<T>(
     regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
     store: &Mutex<RegexStore>,
 ) -> Result<SharedRegex, T> {
+    get_memoized_regex_of_kind(RegexKind::Rule, pattern, regex_factory, store)
+}
+
+fn get_memoized_regex_of_kind<T>(
+    kind: RegexKind,
+    pattern: &str,
+    regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
+    store: &Mutex<RegexStore>,
+) -> Result<SharedRegex, T> {
+    let store_key = (kind, pattern.to_owned());
     {
         let regex_store = store.lock().unwrap();
-        if let Some(exiting_regex) = regex_store.get(pattern) {
+        if let Some(exiting_regex) = regex_store.get(&store_key) {
             return Ok(exiting_regex);
         }
     }
@@ -50,7 +77,7 @@ fn get_memoized_regex_with_custom_store<T>(
     let regex = regex_factory(pattern)?;
 
     let mut regex_store = store.lock().unwrap();
-    Ok(regex_store.insert(pattern, regex))
+    Ok(regex_store.insert(store_key, regex))
 }
 
 // A GC of the regex store happens every N insertions
@@ -63,7 +90,7 @@ lazy_static! {
 new_key_type! { pub struct RegexCacheKey; }
 
 struct RegexStore {
-    pattern_index: AHashMap<String, RegexCacheKey>,
+    pattern_index: AHashMap<(RegexKind, String), RegexCacheKey>,
     key_map: SlotMap<RegexCacheKey, WeakSharedRegex>,
     // used to decide when to GC. Counts up to `GC_FREQUENCY` and is reset to 0 when a GC happens
     gc_counter: u64,
@@ -95,8 +122,8 @@ impl RegexStore {
     }
 
     /// Check if a regex for this pattern already exists, and returns a copy if it does
-    pub fn get(&self, pattern: &str) -> Option<SharedRegex> {
-        self.pattern_index.get(pattern).and_then(|cache_key| {
+    fn get(&self, store_key: &(RegexKind, String)) -> Option<SharedRegex> {
+        self.pattern_index.get(store_key).and_then(|cache_key| {
             self.key_map
                 .get(*cache_key)
                 .and_then(|x| x.regex.upgrade())
@@ -116,12 +143,12 @@ impl RegexStore {
     /// Inserts a new rule into the cache. The "memoized" rule is returned and should be
     /// used instead of the one passed in. This ensures that if there were duplicates of
     /// a rule being created at the same time, only one is kept.
-    pub fn insert(&mut self, pattern: &str, regex: MetaRegex) -> SharedRegex {
+    fn insert(&mut self, store_key: (RegexKind, String), regex: MetaRegex) -> SharedRegex {
         self.gc_counter += 1;
         if self.gc_counter >= GC_FREQUENCY {
             self.gc();
         }
-        if let Some(existing_regex) = self.get(pattern) {
+        if let Some(existing_regex) = self.get(&store_key) {
             existing_regex
         } else {
             let shared_regex = Arc::new(regex);
@@ -133,7 +160,7 @@ impl RegexStore {
                 cache_size,
             });
             GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
-            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
+            if let Some(old_cache_key) = self.pattern_index.insert(store_key, cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
                     GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));
-- 
2.43.0


From 688235689e8e735ea7dd9d5d974980d0255a64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:41 +0000
Subject: [PATCH 15/18] fix: matches in JSON numbers and bools no longer panic

---
 sds/src/event_json.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/event_json.rs b/sds/src/event_json.rs
index 3b56401..6974847 100644
--- a/sds/src/event_json.rs
+++ b/sds/src/event_json.rs
@@ -56,6 +56,13 @@ impl Event for serde_json::Value {
             serde_json::Value::String(s) => {
                 (visit)(s);
             }
+            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
+                // These are visited as text. If the text is changed, it has to become a string.
+                let mut text = value.to_string();
+                if (visit)(&mut text) {
+                    *value = serde_json::Value::String(text);
+                }
+            }
             _ => panic!("unknown value"),
         };
     }
-- 
2.43.0


From ea5ffec1f0c1040a1594f015ec2d5a18853cba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:11 +0000
Subject: [PATCH 16/18] fix: concurrent updates of the scanner count can no
 longer publish an outdated value

---
 sds/src/stats.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sds/src/stats.rs b/sds/src/stats.rs
index 51bd129..8aaa2ea 100644
--- a/sds/src/stats.rs
+++ b/sds/src/stats.rs
@@ -1,6 +1,7 @@
 use lazy_static::lazy_static;
 use metrics::{counter, gauge, Counter, Gauge};
 use std::sync::atomic::{AtomicI64, Ordering};
+use std::sync::{Mutex, PoisonError};
 
 lazy_static! {
     pub static ref GLOBAL_STATS: Stats = Stats::new();
@@ -10,9 +11,10 @@ pub struct Stats {
     pub scanner_creations: Counter,
     pub scanner_deletions: Counter,
 
-    // Count of total scanners. The actual count is calculated with an atomic
-    // since some metrics exporters don't support incrementing gauges (e.g. statsd)
-    total_scanners_count: AtomicI64,
+    // Count of total scanners. The actual count is calculated here
+    // since some metrics exporters don't support incrementing gauges (e.g. statsd).
+    // The lock is held while the gauge is set, so an older count can't replace a newer one.
+    total_scanners_count: Mutex<i64>,
     total_scanners: Gauge,
 
     total_regexes: Gauge,
@@ -26,7 +28,7 @@ impl Stats {
         Self {
             scanner_creations: counter!("scanner.creations"),
             scanner_deletions: counter!("scanner.deletions"),
-            total_scanners_count: AtomicI64::new(0),
+            total_scanners_count: Mutex::new(0),
             total_scanners: gauge!("scanner.total_count"),
             total_regexes: gauge!("scanner.total_regexes"),
             total_regex_cache_size_count: AtomicI64::new(0),
@@ -43,10 +45,12 @@ impl Stats {
     }
 
     fn update_total_scanners(&self, delta: i64) {
-        let prev_value = self
+        let mut count = self
             .total_scanners_count
-            .fetch_add(delta, Ordering::Relaxed);
-        self.total_scanners.set((prev_value + delta) as f64);
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner);
+        *count += delta;
+        self.total_scanners.set(*count as f64);
     }
 
     pub fn set_total_regexes(&self, total_regexes: usize) {
-- 
2.43.0


From bd52a4b89c349909cc57c4ce2298ff3e775d4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:43 +0000
Subject: [PATCH 17/18] fix: an AWS endpoint that is not a URL is an error, not
 a panic

---
 sds/src/match_validation/aws_validator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 96e1553..80dd5ce 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -4,7 +4,7 @@ use crate::{CompiledRuleDyn, MatchStatus, RuleMatch};
 use ahash::AHashMap;
 use lazy_static::lazy_static;
 use rayon::prelude::*;
-use reqwest::{header::HeaderValue, Client};
+use reqwest::{header::HeaderValue, Client, Url};
 
 use super::{
     config::{AwsConfig, AwsType, MatchValidationType},
@@ -145,6 +145,11 @@ impl MatchValidator for AwsValidator {
                         MatchStatus::Error("Invalid characters in aws_id".to_string());
                     return;
                 }
+                if Url::parse(&self.config.aws_sts_endpoint).is_err() {
+                    // The endpoint is part of what is signed
+                    *match_status = MatchStatus::Error("Invalid AWS STS endpoint".to_string());
+                    return;
+                }
                 // Let's reqwest the HTTP API endpoint to validate the matches
                 let mut datetime = chrono::Utc::now();
                 if self.config.forced_datetime_utc.is_some() {
-- 
2.43.0


From bc6f77d46980df849eb63546b7366d26f55f50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:46 +0000
Subject: [PATCH 18/18] fix: a match within reach of a later included keyword
 was skipped after another match

---
 sds/src/scanner/regex_rule/compiled.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 52dd834..1ff9fc2 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -152,12 +152,16 @@ impl RegexCompiledRule {
 
         let mut included_keyword_matches = included_keywords.keyword_matches(content);
 
+        // The end of the last match that was found. The prefixes of different keywords can overlap,
+        // so this prevents matches from being found again.
+        let mut match_search_start = 0;
+
         'included_keyword_search: while let Some(included_keyword_match_start) =
             included_keyword_matches.next(regex_caches)
         {
             let true_positive_search = self.true_positive_matches(
                 content,
-                included_keyword_match_start,
+                included_keyword_match_start.max(match_search_start),
                 regex_caches.get(&self.regex),
                 false,
             );
@@ -169,11 +173,7 @@ impl RegexCompiledRule {
                     true_positive_match.start,
                     included_keywords.look_ahead_character_count,
                 ) {
-                    // The match start might be further than the current start, so some chars
-                    // can be skipped before the next included keyword scanning. The start
-                    // is used instead of the end since the included keyword can overlap with
-                    // a previous match (maybe this can be removed in the future?)
-                    included_keyword_matches.skip_to(true_positive_match.start);
+                    match_search_start = true_positive_match.end;
                     match_emitter.emit(true_positive_match);
 
                     // Continue search since another true positive could potentially be found within the same prefix
-- 
2.43.0

