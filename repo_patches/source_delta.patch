From 6590f74fff2b8022b083a4fc8f01df05ff6d1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:05 +0000
Subject: [PATCH 1/6] fix: do not share memoized regexes between keywords and
 rule patterns

The regex store was keyed by the pattern text alone, but the text is compiled
in two different ways: rule patterns are validated and case-sensitive, keyword
patterns are case-insensitive and not validated. Whichever came first decided
the behaviour of the other for as long as it was alive.
---
 sds/src/proximity_keywords/mod.rs         |  4 +--
 sds/src/scanner/regex_rule/config.rs      |  2 +-
 sds/src/scanner/regex_rule/regex_store.rs | 36 +++++++++++++++++------
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..201967c 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -230,8 +230,8 @@ fn compile_keywords(
         .syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));
 
     Ok(Some((
-        get_memoized_regex(&content_pattern, |p| regex_builder.build(p)).unwrap(),
-        get_memoized_regex(&path_pattern, |p| regex_builder.build(p)).unwrap(),
+        get_memoized_regex("keywords", &content_pattern, |p| regex_builder.build(p)).unwrap(),
+        get_memoized_regex("keywords", &path_pattern, |p| regex_builder.build(p)).unwrap(),
     )))
 }
 
diff --git a/sds/src/scanner/regex_rule/config.rs b/sds/src/scanner/regex_rule/config.rs
index c855fff..3ed3a62 100644
--- a/sds/src/scanner/regex_rule/config.rs
+++ b/sds/src/scanner/regex_rule/config.rs
@@ -95,7 +95,7 @@ impl RuleConfig for RegexRuleConfig {
         rule_index: usize,
         scanner_labels: Labels,
     ) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
-        let regex = get_memoized_regex(&self.pattern, validate_and_create_regex)?;
+        let regex = get_memoized_regex("rule", &self.pattern, validate_and_create_regex)?;
         self.match_action.validate()?;
 
         let rule_labels = scanner_labels.clone_with_labels(self.labels.clone());
diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..3241c3d 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -27,21 +27,36 @@ impl Deref for SharedRegex {
     }
 }
 
+/// `namespace` identifies how `regex_factory` turns a pattern into a regex. Regexes are only
+/// shared between callers that use the same namespace, since the same pattern can be compiled
+/// in different ways (e.g. keywords are case-insensitive, and are not validated like rules are).
 pub fn get_memoized_regex<T>(
+    namespace: &'static str,
     pattern: &str,
     regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
 ) -> Result<SharedRegex, T> {
-    get_memoized_regex_with_custom_store(pattern, regex_factory, &REGEX_STORE)
+    get_memoized_regex_in_namespace(namespace, pattern, regex_factory, &REGEX_STORE)
 }
 
+#[cfg(test)]
 fn get_memoized_regex_with_custom_store<T>(
     pattern: &str,
     regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
     store: &Mutex<RegexStore>,
 ) -> Result<SharedRegex, T> {
+    get_memoized_regex_in_namespace("test", pattern, regex_factory, store)
+}
+
+fn get_memoized_regex_in_namespace<T>(
+    namespace: &'static str,
+    pattern: &str,
+    regex_factory: impl FnOnce(&str) -> Result<regex_automata::meta::Regex, T>,
+    store: &Mutex<RegexStore>,
+) -> Result<SharedRegex, T> {
+    let key = (namespace, pattern.to_owned());
     {
         let regex_store = store.lock().unwrap();
-        if let Some(exiting_regex) = regex_store.get(pattern) {
+        if let Some(exiting_regex) = regex_store.get(&key) {
             return Ok(exiting_regex);
         }
     }
@@ -50,7 +65,7 @@ fn get_memoized_regex_with_custom_store<T>(
     let regex = regex_factory(pattern)?;
 
     let mut regex_store = store.lock().unwrap();
-    Ok(regex_store.insert(pattern, regex))
+    Ok(regex_store.insert(key, regex))
 }
 
 // A GC of the regex store happens every N insertions
@@ -62,8 +77,11 @@ lazy_static! {
 }
 new_key_type! { pub struct RegexCacheKey; }
 
+// The namespace, and the pattern within that namespace
+type PatternKey = (&'static str, String);
+
 struct RegexStore {
-    pattern_index: AHashMap<String, RegexCacheKey>,
+    pattern_index: AHashMap<PatternKey, RegexCacheKey>,
     key_map: SlotMap<RegexCacheKey, WeakSharedRegex>,
     // used to decide when to GC. Counts up to `GC_FREQUENCY` and is reset to 0 when a GC happens
     gc_counter: u64,
@@ -95,8 +113,8 @@ impl RegexStore {
     }
 
     /// Check if a regex for this pattern already exists, and returns a copy if it does
-    pub fn get(&self, pattern: &str) -> Option<SharedRegex> {
-        self.pattern_index.get(pattern).and_then(|cache_key| {
+    pub fn get(&self, key: &PatternKey) -> Option<SharedRegex> {
+        self.pattern_index.get(key).and_then(|cache_key| {
             self.key_map
                 .get(*cache_key)
                 .and_then(|x| x.regex.upgrade())
@@ -116,12 +134,12 @@ impl RegexStore {
     /// Inserts a new rule into the cache. The "memoized" rule is returned and should be
     /// used instead of the one passed in. This ensures that if there were duplicates of
     /// a rule being created at the same time, only one is kept.
-    pub fn insert(&mut self, pattern: &str, regex: MetaRegex) -> SharedRegex {
+    pub fn insert(&mut self, key: PatternKey, regex: MetaRegex) -> SharedRegex {
         self.gc_counter += 1;
         if self.gc_counter >= GC_FREQUENCY {
             self.gc();
         }
-        if let Some(existing_regex) = self.get(pattern) {
+        if let Some(existing_regex) = self.get(&key) {
             existing_regex
         } else {
             let shared_regex = Arc::new(regex);
@@ -131,7 +149,7 @@ impl RegexStore {
                 regex: Arc::downgrade(&shared_regex),
                 cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
             });
-            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
+            if let Some(old_cache_key) = self.pattern_index.insert(key, cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
                     GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));
-- 
2.43.0


From 8ca69a2d2386f8c4ab499d34cad12c70bbc0fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:37 +0000
Subject: [PATCH 2/6] fix: gauges could keep a stale value after concurrent
 updates

The count was updated atomically, but the gauge was set afterwards with the
value seen by that thread. Two threads could set the gauge in the other order,
and it then stayed wrong until the next update.
---
 sds/src/stats.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sds/src/stats.rs b/sds/src/stats.rs
index 51bd129..2f56139 100644
--- a/sds/src/stats.rs
+++ b/sds/src/stats.rs
@@ -43,10 +43,7 @@ impl Stats {
     }
 
     fn update_total_scanners(&self, delta: i64) {
-        let prev_value = self
-            .total_scanners_count
-            .fetch_add(delta, Ordering::Relaxed);
-        self.total_scanners.set((prev_value + delta) as f64);
+        update_gauge(&self.total_scanners_count, &self.total_scanners, delta);
     }
 
     pub fn set_total_regexes(&self, total_regexes: usize) {
@@ -54,9 +51,24 @@ impl Stats {
     }
 
     pub fn add_total_regex_cache(&self, delta: i64) {
-        let prev_value = self
-            .total_regex_cache_size_count
-            .fetch_add(delta, Ordering::Relaxed);
-        self.total_regex_cache_size.set((prev_value + delta) as f64);
+        update_gauge(
+            &self.total_regex_cache_size_count,
+            &self.total_regex_cache_size,
+            delta,
+        );
+    }
+}
+
+fn update_gauge(count: &AtomicI64, gauge: &Gauge, delta: i64) {
+    let mut value = count.fetch_add(delta, Ordering::SeqCst) + delta;
+    // Another thread can change the count and set the gauge in between, so the gauge is only
+    // up to date if the count is still the same after it was set.
+    loop {
+        gauge.set(value as f64);
+        let current_value = count.load(Ordering::SeqCst);
+        if current_value == value {
+            break;
+        }
+        value = current_value;
     }
 }
-- 
2.43.0


From 589616884805d9fb7fcc3c584fac187b72c00bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:46 +0000
Subject: [PATCH 3/6] fix: count the cache of new regexes in
 total_regex_cache_size

Only removals were counted, so the gauge was never above 0 and became more and
more negative.
---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 3241c3d..08b6b51 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -145,10 +145,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(key, cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0


From a337e19d95dc8c4bdf900cf1cb3301309d8eef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:40 +0000
Subject: [PATCH 4/6] fix: reject all patterns that can have an empty match

Only patterns that match the empty input were rejected. Others, such as `\b`,
were accepted, although they have empty matches in other inputs. Scanning
continues at the end of the last match, so it never ended for such a match.
---
 sds/src/validation.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index 89921b6..abe7aa2 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -1,6 +1,7 @@
 use crate::normalization::rust_regex_adapter::{convert_to_rust_regex, QUANTIFIER_LIMIT};
 use crate::parser::error::ParseError;
 use regex_automata::meta::{self};
+use regex_automata::util::syntax;
 use thiserror::Error;
 
 #[derive(Debug, PartialEq, Eq, Error)]
@@ -65,12 +66,26 @@ pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValida
     // This validates that the syntax is valid and normalizes behavior.
     let converted_pattern = convert_to_rust_regex(input)?;
     let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
-    if regex.is_match("") {
+    if can_match_empty_string(&converted_pattern)? {
         return Err(RegexValidationError::MatchesEmptyString);
     }
     Ok(regex)
 }
 
+/// Checks if there is any input where the pattern has an empty match. This is not the same as
+/// matching the input "" (e.g. `\b` doesn't match "", but has two empty matches in "word").
+fn can_match_empty_string(converted_pattern: &str) -> Result<bool, RegexValidationError> {
+    let hir = syntax::parse_with(converted_pattern, &syntax_config())
+        .map_err(|_| RegexValidationError::InvalidSyntax)?;
+    Ok(hir.properties().minimum_len() == Some(0))
+}
+
+fn syntax_config() -> syntax::Config {
+    syntax::Config::default()
+        .dot_matches_new_line(false)
+        .unicode(true)
+}
+
 fn is_regex_within_complexity_limit(
     converted_pattern: &str,
     complexity_limit: usize,
@@ -95,11 +110,7 @@ fn build_regex(
                 // This is purely a performance setting. This is the default, but it might be worth testing this in benchmarks for a better number
                 .hybrid_cache_capacity(2 * (1 << 20)),
         )
-        .syntax(
-            regex_automata::util::syntax::Config::default()
-                .dot_matches_new_line(false)
-                .unicode(true),
-        )
+        .syntax(syntax_config())
         .build(converted_pattern)
         .map_err(|regex_err| {
             if regex_err.size_limit().is_some() {
-- 
2.43.0


From dbb4507637932b67b18996f03184ca0050ecc2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:33 +0000
Subject: [PATCH 5/6] fix: validate_matches lost matches of rules without match
 validation

Matches of rules without a match validation type were removed from the list.
The order of matches with the same start index also depended on the hash order
of the validation types.
---
 sds/src/scanner/mod.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..13df5ed 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -392,24 +392,27 @@ impl Scanner {
         if !self.scanner_features.return_matches {
             return Err(MatchValidationError::NoMatchValidationType);
         }
-        // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
+        // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator.
+        // The position of each match is kept, so the original order can be restored.
         let mut match_validator_rule_match_per_type = AHashMap::new();
-        for rule_match in rule_matches.drain(..) {
+        let mut validated_matches = Vec::with_capacity(rule_matches.len());
+        for (position, rule_match) in rule_matches.drain(..).enumerate() {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
-                if !match_validator_rule_match_per_type.contains_key(match_validation_type) {
-                    match_validator_rule_match_per_type.insert(match_validation_type, Vec::new());
-                }
-                match_validator_rule_match_per_type
-                    .get_mut(match_validation_type)
-                    .unwrap()
-                    .push(rule_match);
+                let (positions, matches) = match_validator_rule_match_per_type
+                    .entry(match_validation_type)
+                    .or_insert_with(|| (Vec::new(), Vec::new()));
+                positions.push(position);
+                matches.push(rule_match);
+            } else {
+                // There is nothing to validate for this match
+                validated_matches.push((position, rule_match));
             }
         }
 
         // Call the validate per match_validator_type with their matches and the RuleMatch list and collect the results
         match_validator_rule_match_per_type.par_iter_mut().for_each(
-            |(match_validation_type, matches_per_type)| {
+            |(match_validation_type, (_, matches_per_type))| {
                 let match_validator = self.match_validators_per_type.get(match_validation_type);
                 if let Some(match_validator) = match_validator {
                     match_validator
@@ -419,13 +422,13 @@ impl Scanner {
             },
         );
 
-        // Refill the rule_matches with the validated matches
-        for (_, mut matches) in match_validator_rule_match_per_type {
-            rule_matches.append(&mut matches);
+        for (_, (positions, matches)) in match_validator_rule_match_per_type {
+            validated_matches.extend(positions.into_iter().zip(matches));
         }
 
-        // Sort rule_matches by start index
-        rule_matches.sort_by_key(|rule_match| rule_match.start_index);
+        // Refill the rule_matches with the validated matches, sorted by start index
+        validated_matches.sort_by_key(|(position, rule_match)| (rule_match.start_index, *position));
+        rule_matches.extend(validated_matches.into_iter().map(|(_, m)| m));
         Ok(())
     }
 
-- 
2.43.0


From 8bb19d2bbd8dfae3a5aecf85f09192855638d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:59 +0000
Subject: [PATCH 6/6] fix: AWS validation panicked if the aws_id is not a valid
 header value

A rule can match any text as the aws_id, including text that is not allowed in
an HTTP header. The validation of all matches of the event then panicked.
---
 sds/src/match_validation/aws_validator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/match_validation/aws_validator.rs b/sds/src/match_validation/aws_validator.rs
index 81fb851..1c0b11c 100644
--- a/sds/src/match_validation/aws_validator.rs
+++ b/sds/src/match_validation/aws_validator.rs
@@ -139,6 +139,13 @@ impl MatchValidator for AwsValidator {
                 }
                 let match_secret = extract_aws_secret_from_match(match_secret.as_ref().unwrap());
                 let match_id = match_id.as_ref().unwrap();
+                // The aws_id is sent as part of the "Authorization" header
+                if reqwest::header::HeaderValue::from_str(match_id).is_err() {
+                    *match_status = MatchStatus::Error(
+                        "Match value for aws_id is not valid in an HTTP header".to_string(),
+                    );
+                    return;
+                }
                 // Let's reqwest the HTTP API endpoint to validate the matches
                 let mut datetime = chrono::Utc::now();
                 if self.config.forced_datetime_utc.is_some() {
-- 
2.43.0

