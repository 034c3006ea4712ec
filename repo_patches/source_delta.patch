From 1f42323b3132870d4579f8f740e4a81042e82922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 01/16] fix: index a merged posting by the date of the
 transaction it ends up in

A new posting that was added to an existing transaction was indexed under the
date of the source transaction, so that soft matches against it used the wrong
date for the rest of that merge run (and a different one on the next run).
---
 src/merge/merger.rs  |  3 ++-
 src/merge/posting.rs | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/merge/merger.rs b/src/merge/merger.rs
index 1dce4f5..0847459 100644
--- a/src/merge/merger.rs
+++ b/src/merge/merger.rs
@@ -145,10 +145,11 @@ impl Merger {
         dest_trn_idx: transaction::Index,
         post_actions: Vec<(posting::Input, PostingMergeAction)>,
     ) -> Result<()> {
+        let dest_date = self.trns.get(dest_trn_idx).trn.raw.date;
         for (post, action) in post_actions {
             match action {
                 PostingMergeAction::New => {
-                    let post_idx = self.posts.add(post, dest_trn_idx)?;
+                    let post_idx = self.posts.add(post, dest_trn_idx, dest_date)?;
                     self.trns.add_post_to_trn(dest_trn_idx, post_idx);
                 }
                 PostingMergeAction::MergeIntoExisting(dest_post_idx) => {
diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 003693f..8324c66 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -50,17 +50,25 @@ impl IndexedPostings {
         ConsumePostings(self.post_arena)
     }
 
-    /// Adds a new posting, updating the fingerprint index.
-    pub fn add(&mut self, input: Input, parent_trn: transaction::Index) -> Result<Index> {
+    /// Adds a new posting, updating the fingerprint index and the index by the
+    /// date of its parent transaction in the destination.
+    pub fn add(
+        &mut self,
+        input: Input,
+        parent_trn: transaction::Index,
+        parent_date: NaiveDate,
+    ) -> Result<Index> {
         #![allow(clippy::needless_collect)] // Collect because `input` is moved into Holder::from_input.
         let fingerprints: Vec<String> = fingerprints_from_comment(&input.posting.comment)
             .map(str::to_string)
             .collect();
-        let (holder, trn_date) = Holder::from_input(input, parent_trn);
+        // The posting might have been moved into a transaction on another date
+        // than that of the transaction it came from.
+        let (holder, _src_date) = Holder::from_input(input, parent_trn);
         let idx = self.post_arena.insert(holder);
         self.register_fingerprints(fingerprints.into_iter(), idx)?;
 
-        self.posts_by_date.entry(trn_date).or_default().push(idx);
+        self.posts_by_date.entry(parent_date).or_default().push(idx);
         Ok(idx)
     }
 
-- 
2.43.0


From eef779c2398f5f8cb8bed4606742e2049b4bcb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 02/16] fix: name the same fingerprint in candidate tags on
 every run

A destination posting with several fingerprints was named by whichever came
first in a HashSet, so that the unmerged output differed between runs on the
same input.
---
 src/merge/posting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 8324c66..f60059a 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -325,9 +325,11 @@ fn merge(dest: &mut PostingInternal, mut src: PostingInternal) {
     dest.comment.merge_from(src.comment);
 }
 
+/// Picks one fingerprint to refer to a posting by. This is always the same one
+/// for the same tags, whatever order they happen to be iterated in.
 fn primary_fingerprint(comment: &Comment) -> &str {
     fingerprints_from_comment(comment)
-        .next()
+        .min()
         .expect("must always have a fingerprint tag")
 }
 
-- 
2.43.0


From f5c7f551909f6eb65101d1cd418f0f3759d83343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 03/16] fix: read PayPal amounts exactly, not through floating
 point

---
 src/importers/paypal_csv.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 3b7fd20..77428c6 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -269,14 +269,24 @@ mod de {
         pub status: Status,
         #[serde(rename = "Currency")]
         pub currency: String,
-        #[serde(rename = "Amount")]
+        #[serde(rename = "Amount", deserialize_with = "deserialize_decimal")]
         pub amount: Decimal,
         #[serde(rename = "Receipt ID")]
         pub receipt_id: Option<String>,
-        #[serde(rename = "Balance")]
+        #[serde(rename = "Balance", deserialize_with = "deserialize_decimal")]
         pub balance: Decimal,
     }
 
+    /// Deserializes from the text of the field: going through a floating point
+    /// number would lose digits of large amounts.
+    fn deserialize_decimal<'de, D: Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
+        let s = String::deserialize(d)?;
+        Decimal::from_str_exact(&s)
+            .or_else(|_| Decimal::from_scientific(&s))
+            .map(|v| v.normalize())
+            .map_err(de::Error::custom)
+    }
+
     #[derive(Debug)]
     pub struct Date(pub NaiveDate);
 
-- 
2.43.0


From a04b9925baa668b76d09873f6a0abdc25bd9ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 04/16] fix: refuse malformed and too large GBP amounts instead
 of altering them

---
 src/importers/nationwide_csv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index bcd26f6..fb105d5 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -478,7 +478,7 @@ mod de {
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
             lazy_static! {
-                static ref RE: Regex = Regex::new(r"£(-?)(\d+)\.(\d+)").unwrap();
+                static ref RE: Regex = Regex::new(r"^£(-?)(\d+)\.(\d{2})$").unwrap();
             }
             let captures = RE
                 .captures(s)
@@ -486,7 +486,11 @@ mod de {
             let is_negative: bool = captures.get(1).unwrap().as_str() == "-";
             let pounds: i64 = deserialize_captured_number(&captures, 2)?;
             let pence: i64 = deserialize_captured_number(&captures, 3)?;
-            let mut quantity = Decimal::new(pounds * 100 + pence, 2);
+            let hundredths = pounds
+                .checked_mul(100)
+                .and_then(|v| v.checked_add(pence))
+                .ok_or_else(|| de::Error::custom("monetary value is too large"))?;
+            let mut quantity = Decimal::new(hundredths, 2);
             quantity.set_sign_negative(is_negative);
             Ok(GbpValue(Amount {
                 commodity: Commodity {
-- 
2.43.0


From 3e00489109c6b9f570e8dde66b409dc505f6fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 05/16] fix: validate the chain jumps inside of All actions

---
 src/rules/table/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 27143dd..b81e19a 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -246,6 +246,7 @@ impl Action {
 
         match self {
             JumpChain(name) => table.get_chain(name).map(|_| ()),
+            All(actions) => actions.iter().try_for_each(|a| a.validate(table)),
             _ => Ok(()),
         }
     }
-- 
2.43.0


From 4b10072cc157f740622e6f33e761724d6a16d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 06/16] fix: report rule chains that jump without end instead
 of overflowing the stack

---
 src/rules/table/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index b81e19a..4fbfa18 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::path::PathBuf;
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use clap::Args;
 use serde_derive::Deserialize;
 
@@ -18,6 +18,10 @@ mod source;
 
 const START_CHAIN: &str = "start";
 
+/// How deep jumps from chain to chain may nest. Only chains that jump back to
+/// themselves without end get this far.
+const MAX_JUMP_DEPTH: usize = 1000;
+
 fn load_from_path(path: &std::path::Path) -> Result<Table> {
     let rf = source::File::from_path(path)?;
     let table = rf.load()?;
@@ -77,7 +81,7 @@ impl Table {
                 trn: &mut trn.trn,
                 post,
             };
-            start.apply(self, &mut ctx)?;
+            start.apply(self, &mut ctx, 0)?;
         }
         Ok(trn)
     }
@@ -114,9 +118,9 @@ impl Chain {
         Self(rules)
     }
 
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         for rule in &self.0 {
-            match rule.apply(table, ctx)? {
+            match rule.apply(table, ctx, depth)? {
                 RuleResult::Continue => {}
                 RuleResult::Return => break,
             }
@@ -140,9 +144,9 @@ pub struct Rule {
 }
 
 impl Rule {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<RuleResult> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<RuleResult> {
         if self.predicate.is_match(ctx) {
-            self.action.apply(table, ctx)?;
+            self.action.apply(table, ctx, depth)?;
             Ok(self.result)
         } else {
             Ok(RuleResult::Continue)
@@ -179,7 +183,7 @@ enum Action {
 }
 
 impl Action {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         use Action::*;
 
         match self {
@@ -203,7 +207,7 @@ impl Action {
             }
             All(actions) => {
                 for action in actions {
-                    action.apply(table, ctx)?;
+                    action.apply(table, ctx, depth)?;
                 }
             }
             Error(err_msg) => {
@@ -216,7 +220,10 @@ impl Action {
             }
             Noop => {}
             JumpChain(name) => {
-                table.get_chain(name)?.apply(table, ctx)?;
+                if depth >= MAX_JUMP_DEPTH {
+                    bail!("jump to chain {} is nested too deeply", name);
+                }
+                table.get_chain(name)?.apply(table, ctx, depth + 1)?;
             }
             SetAccount(v) => {
                 ctx.post.raw.account = v.clone();
-- 
2.43.0


From a4c9b1f7da778dd6c1317b8777205cc12e5d2338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 07/16] fix: number transactions per date also when the dates
 of a statement alternate

---
 src/importers/nationwide_csv.rs | 14 ++++++--------
 src/importers/nationwide_pdf.rs | 29 +++++++++++++++++++----------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index fb105d5..2531785 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use anyhow::{anyhow, bail, Result};
 use chrono::NaiveDate;
 use clap::Args;
@@ -127,8 +129,7 @@ impl NationwideCsv {
     ) -> Result<Vec<Transaction>> {
         let mut transactions = Vec::new();
 
-        let mut prev_date: Option<NaiveDate> = None;
-        let mut date_counter: i32 = 0;
+        let mut date_counters: HashMap<NaiveDate, i32> = HashMap::new();
 
         for result in csv_records {
             let str_record = result?;
@@ -137,12 +138,9 @@ impl NationwideCsv {
             // Maintain the per-date counter. Include a sequence number to each
             // transaction in a given day for use in the fingerprint.
             let date = record.date();
-            if Some(date) != prev_date {
-                prev_date = Some(date);
-                date_counter = 0;
-            } else {
-                date_counter += 1;
-            }
+            let next_counter = date_counters.entry(date).or_insert(0);
+            let date_counter = *next_counter;
+            *next_counter += 1;
 
             let description = record.description();
 
diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a9d164d..36e2199 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::ffi::OsStr;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -182,6 +183,8 @@ struct TransactionsAccumulator {
     cur_trn_opt: Option<TransactionBuilder>,
     prev_date: Option<NaiveDate>,
     date_counter: i32,
+    /// Next unused counter value of each date that has a transaction.
+    next_counters: HashMap<Option<NaiveDate>, i32>,
     trns: Vec<Transaction>,
 }
 
@@ -192,6 +195,7 @@ impl TransactionsAccumulator {
             cur_trn_opt: None,
             prev_date: None,
             date_counter: 0,
+            next_counters: HashMap::new(),
             trns: Vec::new(),
         }
     }
@@ -209,11 +213,7 @@ impl TransactionsAccumulator {
             (Some(payment), None) => {
                 // Start of new payment transaction.
                 self.flush_transaction()?;
-                if trn_line.implied_date != self.prev_date {
-                    self.date_counter = 0;
-                } else {
-                    self.date_counter += 1;
-                }
+                self.count_transaction(trn_line.implied_date);
                 self.cur_trn_opt = Some(TransactionBuilder::new(
                     trn_line.implied_date,
                     self.date_counter,
@@ -225,11 +225,7 @@ impl TransactionsAccumulator {
             (None, Some(receipt)) => {
                 // Start of new receipt transaction.
                 self.flush_transaction()?;
-                if trn_line.implied_date != self.prev_date {
-                    self.date_counter = 0;
-                } else {
-                    self.date_counter += 1;
-                }
+                self.count_transaction(trn_line.implied_date);
                 self.cur_trn_opt = Some(TransactionBuilder::new(
                     trn_line.implied_date,
                     self.date_counter,
@@ -276,6 +272,19 @@ impl TransactionsAccumulator {
         Ok(())
     }
 
+    /// Advances `date_counter` for a transaction of the date, to a value that
+    /// no earlier transaction of the same date has.
+    fn count_transaction(&mut self, date: Option<NaiveDate>) {
+        let counter = if date != self.prev_date {
+            0
+        } else {
+            self.date_counter + 1
+        };
+        let next_counter = self.next_counters.entry(date).or_insert(0);
+        self.date_counter = counter.max(*next_counter);
+        *next_counter = self.date_counter + 1;
+    }
+
     fn flush_transaction(&mut self) -> Result<()> {
         if let Some(pending) = self.cur_trn_opt.take() {
             self.trns.push(pending.build(&self.fp_ns)?);
-- 
2.43.0


From b1ffc77bf474b13a82c8ddbdf99aef8727c582a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 08/16] fix: do not overflow on OCR positions near the integer
 limits

---
 src/importers/nationwide_pdf.rs | 5 ++++-
 src/importers/tesseract.rs      | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 36e2199..7f2bbd9 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -161,7 +161,10 @@ impl NationwidePdf {
 
         for trn_line in &trn_lines {
             if let Some(prev_trn_line) = prev_trn_line {
-                if trn_line.top > prev_trn_line.top + prev_trn_line.height * 2 {
+                let blank_from = prev_trn_line
+                    .top
+                    .saturating_add(prev_trn_line.height.saturating_mul(2));
+                if trn_line.top > blank_from {
                     // There have been blank lines, this is probably the end of
                     // the transactions.
                     break;
diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 24379ce..84437a6 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -258,7 +258,7 @@ impl Word {
     pub fn horiz_bounds(&self) -> Bounds {
         Bounds {
             min: self.left,
-            max: self.left + self.width,
+            max: self.left.saturating_add(self.width),
         }
     }
 }
-- 
2.43.0


From 2262c85aba107cb6c8549bd989d05701c961667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 09/16] fix: fail the PDF import when an external program fails

---
 src/importers/nationwide_pdf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 7f2bbd9..721167c 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -99,10 +99,13 @@ impl NationwidePdf {
                 png_fmt.as_os_str(),
             ];
 
-            Command::new(self.graphics_magic_binary.as_os_str())
+            let status = Command::new(self.graphics_magic_binary.as_os_str())
                 .args(gm_args)
                 .status()
                 .context("converting PDF into PNG files")?;
+            if !status.success() {
+                bail!("converting PDF into PNG files: {}", status);
+            }
         }
 
         let png_list_file_path = tmpdir.path().join("png-files.txt");
@@ -138,10 +141,13 @@ impl NationwidePdf {
                 // Configuration to use (i.e output format).
                 "tsv".as_ref(),
             ];
-            Command::new(self.tesseract_binary.as_os_str())
+            let status = Command::new(self.tesseract_binary.as_os_str())
                 .args(tess_args)
                 .status()
                 .context("performing OCR on PNG files")?;
+            if !status.success() {
+                bail!("performing OCR on PNG files: {}", status);
+            }
         }
 
         {
-- 
2.43.0


From 40cdb97216553f39ee7fb600c71fd23199766b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 10/16] fix: read quotes in OCR output as part of the word

---
 src/importers/tesseract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 84437a6..2da85d6 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -38,6 +38,8 @@ impl Document {
         let r = csv::ReaderBuilder::new()
             .delimiter(b'\t')
             .has_headers(true)
+            // Tesseract writes quotes in words as they are.
+            .quoting(false)
             .trim(csv::Trim::All)
             .from_reader(reader);
 
-- 
2.43.0


From a33f551ff1aeda6e03ee6a5414f7d424deff46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 11/16] fix: keep line breaks in statement fields from breaking
 up the imported transaction

---
 src/importers/nationwide_csv.rs |  8 ++++----
 src/importers/paypal_csv.rs     |  6 ++++--
 src/importers/util.rs           | 12 ++++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index 2531785..be8abaa 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -13,7 +13,7 @@ use crate::filespec::FileSpec;
 use crate::importers::importer::TransactionImporter;
 use crate::importers::nationwide::{CommonOpts, BANK_NAME};
 use crate::importers::nationwide_csv::de::*;
-use crate::importers::util::{negate_amount, self_and_peer_account_amount};
+use crate::importers::util::{negate_amount, self_and_peer_account_amount, single_line_fields};
 use crate::ledgerutil::simple_posting_amount;
 use crate::tags;
 
@@ -132,7 +132,7 @@ impl NationwideCsv {
         let mut date_counters: HashMap<NaiveDate, i32> = HashMap::new();
 
         for result in csv_records {
-            let str_record = result?;
+            let str_record = single_line_fields(&result?);
             let record: T = str_record.deserialize(None)?;
 
             // Maintain the per-date counter. Include a sequence number to each
@@ -330,7 +330,7 @@ mod de {
 
     use crate::fingerprint::{Accumulator, FingerprintBuilder, Fingerprintable};
     use crate::importers::util::{
-        self_and_peer_fingerprints, FingerprintHalves, TransactionHalves,
+        self_and_peer_fingerprints, single_line_fields, FingerprintHalves, TransactionHalves,
     };
 
     /// Contains the directly deserialized values from the five-column
@@ -528,7 +528,7 @@ mod de {
         R: std::io::Read,
     {
         match csv_records.next() {
-            Some(Ok(str_record)) => Ok(Some(str_record.deserialize(None)?)),
+            Some(Ok(str_record)) => Ok(Some(single_line_fields(&str_record).deserialize(None)?)),
             Some(Err(e)) => Err(e.into()),
             None => Ok(None),
         }
diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 77428c6..3024b19 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -10,7 +10,9 @@ use crate::comment::Comment;
 use crate::filespec::FileSpec;
 use crate::fingerprint::FingerprintBuilder;
 use crate::importers::importer::TransactionImporter;
-use crate::importers::util::{self_and_peer_account_amount, self_and_peer_fingerprints};
+use crate::importers::util::{
+    self_and_peer_account_amount, self_and_peer_fingerprints, single_line_fields,
+};
 use crate::ledgerutil::simple_posting_amount;
 use crate::tags;
 use crate::tzabbr::TzAbbrDB;
@@ -239,7 +241,7 @@ fn deserialize_row(
     tz_abbrs: &TzAbbrDB,
     fp_ns: &str,
 ) -> Result<Record> {
-    let de_record: de::Record = sr?.deserialize(Some(headers))?;
+    let de_record: de::Record = single_line_fields(&sr?).deserialize(Some(headers))?;
     Record::from_csv_record(de_record, tz_abbrs, fp_ns)
 }
 
diff --git a/src/importers/util.rs b/src/importers/util.rs
index 368ff0d..9f614e8 100644
--- a/src/importers/util.rs
+++ b/src/importers/util.rs
@@ -53,3 +53,15 @@ pub fn self_and_peer_fingerprints(fpb: FingerprintBuilder) -> FingerprintHalves
         peer: fpb.with("peer").build(),
     }
 }
+
+/// Replaces line breaks within the fields of a record by spaces. Descriptions
+/// and tag values are single lines in a journal, what follows a line break
+/// would be read as something else.
+pub fn single_line_fields(record: &csv::StringRecord) -> csv::StringRecord {
+    let mut out: csv::StringRecord = record
+        .iter()
+        .map(|field| field.replace(['\r', '\n'], " "))
+        .collect();
+    out.set_position(record.position().cloned());
+    out
+}
-- 
2.43.0


From d1fe8d6665d1cb018eccb8d05b15bdab83aefe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 12/16] fix: refuse PayPal amounts in scientific notation that
 cannot be held exactly

`Decimal::from_scientific` silently rounds mantissas of more digits than fit.
---
 src/importers/paypal_csv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 3024b19..9f64c22 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -284,7 +284,11 @@ mod de {
     fn deserialize_decimal<'de, D: Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
         let s = String::deserialize(d)?;
         Decimal::from_str_exact(&s)
-            .or_else(|_| Decimal::from_scientific(&s))
+            .or_else(|_| {
+                // `from_scientific` by itself rounds what it cannot hold.
+                let base = s.split(['e', 'E']).next().unwrap_or("");
+                Decimal::from_str_exact(base).and_then(|_| Decimal::from_scientific(&s))
+            })
             .map(|v| v.normalize())
             .map_err(de::Error::custom)
     }
-- 
2.43.0


From b56ec820cc0ef3c31855ef5b35de1ba12db90336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 13/16] fix: refuse PayPal currencies that are not commodities

They would be written into amounts that cannot be read again, or that are
read as something else.
---
 src/importers/paypal_csv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 9f64c22..6f44b5a 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -180,6 +180,10 @@ struct Record {
 
 impl Record {
     fn from_csv_record(v: de::Record, tz_abbrs: &TzAbbrDB, fp_ns: &str) -> Result<Self> {
+        if v.currency.is_empty() || !v.currency.bytes().all(|c| c.is_ascii_alphabetic()) {
+            // Would not be read as a commodity again.
+            bail!("bad currency {:?}", v.currency);
+        }
         let commodity = Commodity {
             name: v.currency,
             position: CommodityPosition::Left,
-- 
2.43.0


From 22917dbbc47480671bab1e4c8e844ee247ef777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 14/16] fix: count actions within actions towards the depth of
 jumps

A chain that jumps back to itself from within nested All actions still
overflowed the stack.
---
 src/rules/table/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 4fbfa18..43d2003 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -18,8 +18,8 @@ mod source;
 
 const START_CHAIN: &str = "start";
 
-/// How deep jumps from chain to chain may nest. Only chains that jump back to
-/// themselves without end get this far.
+/// How deep actions (jumps from chain to chain, and actions within actions) may
+/// nest. Only chains that jump back to themselves without end get this far.
 const MAX_JUMP_DEPTH: usize = 1000;
 
 fn load_from_path(path: &std::path::Path) -> Result<Table> {
@@ -207,7 +207,7 @@ impl Action {
             }
             All(actions) => {
                 for action in actions {
-                    action.apply(table, ctx, depth)?;
+                    action.apply(table, ctx, depth + 1)?;
                 }
             }
             Error(err_msg) => {
-- 
2.43.0


From a7054df2e79234673071147bdad9cb78972f0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 15/16] fix: read all journals before rewriting any

---
 src/fmt.rs   | 13 ++++++++++---
 src/fpgen.rs | 14 +++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 08fb0c2..1f4e697 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -11,9 +11,16 @@ pub struct Cmd {
 
 impl Cmd {
     pub fn run(&self) -> Result<()> {
-        for ledger_file in &self.journals {
-            let ledger = filespec::read_ledger_file(ledger_file)?;
-            filespec::write_ledger_file(ledger_file, &ledger)?;
+        // Read everything before writing anything, so that a journal that
+        // cannot be read leaves all of them as they were.
+        let ledgers = self
+            .journals
+            .iter()
+            .map(filespec::read_ledger_file)
+            .collect::<Result<Vec<_>>>()?;
+
+        for (ledger_file, ledger) in self.journals.iter().zip(&ledgers) {
+            filespec::write_ledger_file(ledger_file, ledger)?;
         }
 
         Ok(())
diff --git a/src/fpgen.rs b/src/fpgen.rs
index 2db5b28..8d33284 100644
--- a/src/fpgen.rs
+++ b/src/fpgen.rs
@@ -15,9 +15,17 @@ pub struct Cmd {
 
 impl Cmd {
     pub fn run(&self) -> Result<()> {
-        for ledger_file in &self.journals {
-            let ledger = filespec::read_ledger_file(ledger_file)?;
-            let mut trns = TransactionPostings::from_ledger(ledger)?;
+        // Read everything before writing anything, so that a journal that
+        // cannot be read leaves all of them as they were.
+        let journals = self
+            .journals
+            .iter()
+            .map(|ledger_file| {
+                TransactionPostings::from_ledger(filespec::read_ledger_file(ledger_file)?)
+            })
+            .collect::<Result<Vec<_>>>()?;
+
+        for (ledger_file, mut trns) in self.journals.iter().zip(journals) {
             update_transactions(&mut trns);
             let ledger = TransactionPostings::into_ledger(trns);
             filespec::write_ledger_file(ledger_file, &ledger)?;
-- 
2.43.0


From ed74ac09f5ed2c865b9b0453ffa05eb1dc7ac272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 16/16] fix: keep the order of the pages of statements with
 over 100 pages

---
 src/importers/nationwide_pdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 721167c..f8c57c6 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -87,7 +87,7 @@ impl NationwidePdf {
             .ok_or_else(|| anyhow!("converting glob path to utf-8 string"))?;
 
         {
-            let png_fmt = tmpdir.path().join("page-%02d.png");
+            let png_fmt = tmpdir.path().join("page-%06d.png");
             let gm_args: [&OsStr; 6] = [
                 "convert".as_ref(),
                 // DPI of the PNG files.
-- 
2.43.0

