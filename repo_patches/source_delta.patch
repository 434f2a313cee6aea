From dd54701d388914dbe6a3b5bea7dc5c2f1f7524c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 01/37] fix: envelope movements no longer change balances or
 the register

Envelope postings earmark money inside of an account. The balance report and
the register counted them as if money had flowed into the account, so every
automatic fill inflated the reported totals.
---
 src/entry.rs      | 3 ++-
 src/ledger/mod.rs | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index 76b36fd..4646412 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -423,7 +423,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             let mut negative_names = HashSet::new();
             let mut focused_amount = AmountPool::new();
 
-            for p in &self.postings {
+            // envelope postings don't move any money between accounts, so they're not counted
+            for p in self.postings.iter().filter(|p| p.is_classic()) {
                 let name = p.get_account();
                 let amount = if let Some(a) = p.get_amount() {
                     a.clone()
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index f9821de..553b5be 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -224,6 +224,12 @@ impl Ledger {
         // read: for each posting in the ledger, add its amount to its account in totals_map
         for entry in &self.entries {
             for posting in entry.get_postings() {
+                // envelope postings only earmark money inside of an account; they never change
+                // the account's balance
+                if posting.is_envelope() {
+                    continue;
+                }
+
                 let posting_amount = posting.get_amount();
                 let posting_account = posting.get_account();
                 // if the account key exists, just add to it. if it doesn't exist, insert a new
-- 
2.43.0


From c7281b164d228597679b634cce33808ba7749bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 02/37] fix: count the inferred amount when an account's first
 posting is blank

The balance report started an account at zero if the first posting to it had
no amount, losing the inferred amount.
---
 src/ledger/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 553b5be..d279f0e 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -248,12 +248,14 @@ impl Ledger {
                     }
                 } else {
                     // if the posting amount exists, set an AmountPool from the amount as the
-                    // key's value. otherwise, use an AmountPool from a zero Amount.
+                    // key's value. otherwise, use an AmountPool from the amount inferred for the
+                    // blank posting.
                     if let Some(a) = posting_amount {
                         totals_map.insert(posting_account.to_owned(), AmountPool::from(a.clone()));
                     } else {
+                        let blank_amount = entry.get_blank_amount()?.unwrap_or(Amount::zero());
                         totals_map
-                            .insert(posting_account.to_owned(), AmountPool::from(Amount::zero()));
+                            .insert(posting_account.to_owned(), AmountPool::from(blank_amount));
                     }
                 }
             }
-- 
2.43.0


From 462c30cc5863962042220103613c418996085281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 03/37] fix: leave envelope postings out of blank amount
 inference

A blank posting was inferred as if the entry's envelope postings moved real
money, so an entry with both got a wrong (or unneeded mixed-currency) amount.
---
 src/entry.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 4646412..1f6d4e4 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -222,7 +222,7 @@ impl Entry {
                 // if any of the native amounts are None, the calculation fails and this function
                 // returns an error
                 let mut blank_amount = Amount::zero();
-                for posting in &self.postings {
+                for posting in self.postings.iter().filter(|p| p.is_classic()) {
                     if let Some(v) = posting.get_original_native_value() {
                         blank_amount.mag -= v
                     } else {
@@ -241,8 +241,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                 Ok(Some(blank_amount))
             } else {
                 // for each posting, subtract that posting's amount from the blank amount (as long as
-                // `posting` doesn't have a blank amount)
-                let mut iter = self.postings.iter();
+                // `posting` doesn't have a blank amount). envelope postings aren't part of the
+                // entry's balance
+                let mut iter = self.postings.iter().filter(|p| p.is_classic());
 
                 // get starting blank amount by finding the first non-blank amount and then
                 // negating it
@@ -282,7 +283,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
     fn validate(&self, context: &str) -> Result<(), ValidationError> {
         let mut blank_amounts = 0;
         let mut symbol_set = HashSet::new();
-        for posting in &self.postings {
+        for posting in self.postings.iter().filter(|p| p.is_classic()) {
             // does amount exist?
             if let Some(a) = posting.get_amount() {
                 // if so, add its symbol to the set if it exists
@@ -373,8 +374,8 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
         if self.postings.is_empty() {
             false
         } else {
-            let mut iter = self.postings.iter();
-            let symbol_to_match = if let Some(p) = iter.find(|&p| p.get_amount().is_some()) {
+            let mut iter = self.postings.iter().filter(|p| p.is_classic());
+            let symbol_to_match = if let Some(p) = iter.find(|p| p.get_amount().is_some()) {
                 if let Some(a) = p.get_amount() {
                     a.symbol.clone()
                 } else {
-- 
2.43.0


From 8b9573ca5094c53b8b7b3bf2b055ce64eb8d7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 04/37] fix: report an error for an entry whose only posting is
 blank

It used to hit an unreachable!() and crash.
---
 src/entry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 1f6d4e4..fa191d8 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -256,9 +256,10 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                         unreachable!()
                     }
                 } else {
-                    // shouldn't be reachable, since there'd better be at least one non-blank
-                    // amount
-                    unreachable!()
+                    // there'd better be at least one non-blank amount
+                    return Err(ProcessingError::default()
+                        .set_message("silverfox can't infer a blank posting amount when there are no other amounts in the entry")
+                        .set_context(&self.as_full_string()));
                 };
 
                 // subtract the rest of the postings
-- 
2.43.0


From f0eb678ce0e129084e1cd3454315007b98244d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:35 +0000
Subject: [PATCH 05/37] fix: don't crash on entry headers without a status or
 with misplaced brackets

---
 src/entry.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index fa191d8..ec5d476 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -177,12 +177,23 @@ impl Entry {
         };
 
         // parse status
-        let status = header_tokens[1].parse::<EntryStatus>()?;
+        let status = match header_tokens.get(1) {
+            Some(t) => t.parse::<EntryStatus>()?,
+            None => {
+                return Err(ParseError {
+                    message: Some(
+                        "silverfox requires statuses on entries, but this one has none".to_string(),
+                    ),
+                    context: Some(clean_header.to_string()),
+                });
+            }
+        };
 
         // parse description_and_payee
         let description_and_payee: &str = &header_tokens[2..].join(" ");
         let (description, payee) = if let Some(i) = description_and_payee.find('[') {
-            if let Some(j) = description_and_payee.rfind(']') {
+            // only look for the closing bracket after the opening one
+            if let Some(j) = description_and_payee[i..].rfind(']').map(|j| i + j) {
                 // both brackets exist, so take everything before the opening bracket as the
                 // description and everything in the brackets as the payee
                 // yeah, this means anything after the closing bracket won't be included :/
-- 
2.43.0


From c456d39fd72aab07594c8026e6e3137f309f51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:28 +0000
Subject: [PATCH 06/37] fix: reject entries that aren't balanced

Entry::validate documents that an entry's postings must sum to zero, but never
checked it, so a typo in an amount made money appear out of nowhere.
---
 src/entry.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index ec5d476..7860161 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -314,6 +314,26 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             }
         }
 
+        // if nothing has to be inferred, the amounts have to add up to zero. this can't be said for
+        // mixed currencies, since one currency's worth in another might only be known roughly
+        if blank_amounts == 0 && !self.has_mixed_currencies() {
+            let mags = self
+                .postings
+                .iter()
+                .filter(|p| p.is_classic())
+                .filter_map(|p| p.get_amount())
+                .map(|a| a.mag);
+            let sum = mags.clone().sum::<f64>();
+            let total = mags.map(f64::abs).sum::<f64>();
+
+            // allow for the limits of floating point precision
+            if sum.abs() > (total * 1e-12).max(1e-8) {
+                return Err(ValidationError::default()
+                    .set_message("this entry isn't balanced; its amounts need to add up to zero")
+                    .set_context(context));
+            }
+        }
+
         // if there's a blank amount but the currencies aren't consistent, we can't infer the
         // blank's amount; there's a way around this that will be worked out in the future, but for
         // now it will be unsupported: TODO
-- 
2.43.0


From 82519cd0d152708768fa7987e5f951eb80a9ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 07/37] fix: don't crash on comment lines between an envelope's
 properties

---
 src/envelope.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index d53cfd5..6b52790 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -451,6 +451,12 @@ impl Envelope {
     ) -> Result<(), ParseError> {
         for line in body.lines() {
             let trimmed_line = utils::remove_comments(line).trim();
+
+            // if blank (or just a comment), skip
+            if trimmed_line.is_empty() {
+                continue;
+            }
+
             let line_split = trimmed_line.split_whitespace().collect::<Vec<&str>>();
             let key = line_split[0];
 
-- 
2.43.0


From b7dee32f4e8eeeaee3f02d8719b8a474c66a644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 08/37] fix: allow comments and trailing spaces after envelope
 due dates

The README's own examples (`due every Monday  // weekly`, `by 2020/12/25  //
...`, `starting 2019/10/20  // ...`) were rejected, because the whitespace
in front of the comment was parsed as part of the weekday or date.
---
 src/envelope.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6b52790..14842b9 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -397,9 +397,10 @@ impl Envelope {
         date_format: &str,
         account_name: &str,
     ) -> Result<Self, ParseError> {
-        let tokens = utils::remove_comments(header)
-            .split_whitespace()
-            .collect::<Vec<&str>>();
+        // a comment leaves trailing whitespace behind, which would end up in dates and weekdays
+        header = utils::remove_comments(header).trim_end();
+
+        let tokens = header.split_whitespace().collect::<Vec<&str>>();
 
         if tokens.len() < 2 {
             return Err(ParseError {
-- 
2.43.0


From 9ee1672444819b592403ccad6b450fb004e69812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 09/37] fix: next due date of `every other` envelopes

- a biweekly envelope starting within the next two weeks skipped its first due
  date
- a bimonthly envelope that's due today claimed today as its next due date,
  unlike every other frequency
---
 src/envelope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 14842b9..073de2c 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -267,6 +267,10 @@ impl Frequency {
                 // the same weekday as `w` itself
 
                 // if starting date is after today, use that
+                if starting_date > &today {
+                    return Some(*starting_date);
+                }
+
                 let duration_passed = today.signed_duration_since(*starting_date);
                 let periods_passed = duration_passed.num_weeks() / 2;
                 let next = *starting_date + chrono::Duration::weeks((periods_passed + 1) * 2);
@@ -282,7 +286,7 @@ impl Frequency {
                     // brute force method until we find something better to do...
                     let day_of_month = starting_date.day();
                     let mut date = *starting_date;
-                    while date < today {
+                    while date <= today {
                         let month0_plus_two = date.month0() + 2;
                         let new_year = date.year() + month0_plus_two as i32 / 12;
                         let new_month = (month0_plus_two % 12) + 1; // + 1 so it's one-based
-- 
2.43.0


From d2d1ab487a1cf3cb3c557d19f01080f0c0ffddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:30 +0000
Subject: [PATCH 10/37] fix: due dates of annual envelopes

An annual envelope was never due again after its first anniversary, so its next
due date lay in the past. Starting dates on February 29th crashed.
---
 src/envelope.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 073de2c..96cdaa9 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -213,7 +213,7 @@ impl Frequency {
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
                 Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
                 Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
-                Self::Annually(d) => Some(d.with_year(d.year() - 1).unwrap()),
+                Self::Annually(d) => Some(Self::date_in_year(*d, next_date.year() - 1)),
                 _ => None,
             }
         } else {
@@ -310,12 +310,26 @@ impl Frequency {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
-                    starting_date.with_year(starting_date.year() + 1)
+                    // this year's due date, unless it has already passed
+                    let this_year = Self::date_in_year(*starting_date, today.year());
+                    if this_year > today {
+                        Some(this_year)
+                    } else {
+                        Some(Self::date_in_year(*starting_date, today.year() + 1))
+                    }
                 }
             }
         }
     }
 
+    /// Returns the date's anniversary in the year. February 29th becomes the 28th if the year isn't
+    /// a leap year
+    fn date_in_year(date: NaiveDate, year: i32) -> NaiveDate {
+        date.with_year(year)
+            .or_else(|| NaiveDate::from_ymd_opt(year, date.month(), date.day() - 1))
+            .unwrap_or(date)
+    }
+
     /// Returns the last day of the date's month
     fn get_last_date_of_month(date: NaiveDate) -> NaiveDate {
         NaiveDate::from_ymd_opt(date.year(), date.month() + 1, 1)
-- 
2.43.0


From 0f5ccc45b64f22b63e630e349a884845ec94b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:31 +0000
Subject: [PATCH 11/37] fix: last due date at the ends of months

An envelope due on the 29th, 30th or 31st crashed when the previous month is
shorter, and got a wrong last due date after a shorter month.
---
 src/envelope.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 96cdaa9..63db526 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -211,8 +211,13 @@ impl Frequency {
             match self {
                 Self::Weekly(_) => Some(next_date - chrono::Duration::days(7)),
                 Self::Biweekly(_) => Some(next_date - chrono::Duration::days(14)),
-                Self::Monthly(_) => Some(Self::subtract_months(next_date, 1)),
-                Self::Bimonthly(_) => Some(Self::subtract_months(next_date, 2)),
+                Self::Monthly(day) => {
+                    Some(Self::clamp_to_day(Self::subtract_months(next_date, 1), *day))
+                }
+                Self::Bimonthly(d) => Some(Self::clamp_to_day(
+                    Self::subtract_months(next_date, 2),
+                    d.day(),
+                )),
                 Self::Annually(d) => Some(Self::date_in_year(*d, next_date.year() - 1)),
                 _ => None,
             }
@@ -236,7 +241,14 @@ impl Frequency {
             new_year -= 1;
         }
 
-        NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, date.day()).unwrap()
+        let first = NaiveDate::from_ymd_opt(new_year, new_month0 as u32 + 1, 1).unwrap();
+        Self::clamp_to_day(first, date.day())
+    }
+
+    /// Returns the given day in the date's month, or the last day of that month if it's shorter
+    fn clamp_to_day(date: NaiveDate, day: u32) -> NaiveDate {
+        date.with_day(day)
+            .unwrap_or_else(|| Self::get_last_date_of_month(date))
     }
 
     // this function is pretty long, so we should probably break it into smaller functions
-- 
2.43.0


From 1712014cf0688bc1afea434ffdf6331109d73dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:31 +0000
Subject: [PATCH 12/37] fix: envelopes that haven't started yet, and goals that
 are over

- money set aside before an envelope's starting date was counted as ready to be
  spent instead of as saved for the first due date, so automatic funding kept
  pouring money into it past its amount
- a goal whose date has passed was due again on its (past) starting date, and
  kept receiving money
---
 src/envelope.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 63db526..dab0fac 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -789,7 +789,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             self.now_amount += amount.clone();
         } else if amount.mag > 0.0 {
             // add to an envelope, depending on the date
-            if let Some(d) = self.freq.get_last_due_date() {
+            if let Some(d) = self.get_last_due_date() {
                 if date < d {
                     // anything before the last due date is ready
                     self.now_amount += amount.clone();
@@ -906,12 +906,25 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
             d
         } else {
-            return Some(starting_date);
+            // a starting date in the past isn't a due date anymore
+            return Some(starting_date).filter(|d| *d > Local::now().date_naive());
         };
 
         Some(starting_date.max(freq_next_date))
     }
 
+    fn get_last_due_date(&self) -> Option<NaiveDate> {
+        // an envelope that hasn't started yet has never been due
+        if self
+            .starting_date
+            .is_some_and(|d| d > Local::now().date_naive())
+        {
+            return None;
+        }
+
+        self.freq.get_last_due_date()
+    }
+
     pub fn get_freq(&self) -> &Frequency {
         &self.freq
     }
-- 
2.43.0


From 7b8d4bd6aa3c0735a475c192a0cc84ec289c619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:04 +0000
Subject: [PATCH 13/37] fix: put refunds back into their envelope

The amount to move is the minimum of two absolute values, but one of them
wasn't absolute. A refund was taken out of the envelope instead of being
returned to it.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index dab0fac..6fc517e 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -758,6 +758,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
         // the minimum of the absolute values of auto_postings_sum and self_account_postings_sum
         let abs_min_mag = auto_postings_sum
             .mag
+            .abs()
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-- 
2.43.0


From 036c44f3d7b27eb1e7c24377f24dfac614548fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:05 +0000
Subject: [PATCH 14/37] fix: don't crash when a foreign amount is converted for
 an envelope

The magnitude was converted to the native currency, but the symbol wasn't, and
adding it to the native sum failed an assertion.
---
 src/envelope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6fc517e..720367c 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -737,6 +737,7 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     });
                 } else if let Some(m) = posting.get_original_native_value() {
                     amount_to_add.mag = m;
+                    amount_to_add.symbol = None;
                 } else {
                     return Err(ProcessingError::default()
                                                                     .set_message(
-- 
2.43.0


From 5a9134d12d9309920a5022a5bb80762655d7c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:05 +0000
Subject: [PATCH 15/37] fix: report an error when an envelope posting uses
 another currency

Moving money in a currency other than the envelope's failed an assertion.
---
 src/envelope.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 720367c..ada291a 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -644,14 +644,13 @@ impl Envelope {
     /// and amounts), as well as the envelope's last_entry_date
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         if entry.has_envelope_posting() {
-            self.process_manual_postings(entry);
-            Ok(())
+            self.process_manual_postings(entry)
         } else {
             self.infer(entry)
         }
     }
 
-    fn process_manual_postings(&mut self, entry: &Entry) {
+    fn process_manual_postings(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
         // manual envelopes
         for posting in entry.get_envelope_postings() {
             // process each envelope posting in the entry
@@ -665,10 +664,22 @@ impl Envelope {
 
                     let amount = envelope_posting.get_amount();
 
+                    if amount.symbol != self.amount.symbol {
+                        let message = format!(
+                            "the envelope `{}` in `{}` was set up with a different currency than the one used here",
+                            self.name, self.account
+                        );
+                        return Err(ProcessingError::default()
+                            .set_message(&message)
+                            .set_context(&entry.as_full_string()));
+                    }
+
                     self.apply_amount(amount, *entry.get_date());
                 }
             }
         }
+
+        Ok(())
     }
 
     fn infer(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
-- 
2.43.0


From 97c86e783c4f231cad5b746deda181d133ca6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:06 +0000
Subject: [PATCH 16/37] fix: report register errors instead of crashing

For example when the output isn't a terminal.
---
 src/flags.rs      | 2 +-
 src/ledger/mod.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index eae16d7..1059aa4 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -92,7 +92,7 @@ impl CommandFlags {
         match self.subcommand {
             Subcommand::Balance => ledger.display_flat_balance()?,
             Subcommand::Envelopes => ledger.display_envelopes(),
-            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None),
+            Subcommand::Register => ledger.display_register(self.begin_date, self.end_date, None)?,
             Subcommand::Import => {
                 if let Some(c) = &self.csv_file {
                     return ledger.import_csv(c, self.rules_file.as_ref());
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index d279f0e..c9c39f7 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -338,7 +338,7 @@ impl Ledger {
         begin_date: Option<NaiveDate>,
         end_date: Option<NaiveDate>,
         account_match: Option<String>,
-    ) {
+    ) -> Result<(), SilverfoxError> {
         Register::display(
             &self.entries,
             &self.date_format,
@@ -346,7 +346,6 @@ impl Ledger {
             end_date,
             account_match,
         )
-        .unwrap();
     }
 }
 
-- 
2.43.0


From 165d4de9587bf5d9385a1ede254f28a66e1d9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:06 +0000
Subject: [PATCH 17/37] fix: relative paths to journals, includes and csv files

Parsing a journal or an included file changed the current directory and never
changed it back. With a path like `journals/main.sfox`, entries couldn't be
appended anymore, the csv file to import was looked for next to the journal, and
an `include` after another one was resolved from the wrong directory.
---
 src/ledger/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index c9c39f7..00cd620 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -41,7 +41,9 @@ impl Ledger {
     /// Returns a ledger parsed from a file at the `file_path`.
     pub fn from_file(file_path: &Path) -> Result<Self, SilverfoxError> {
         let mut ledger = Self::new();
-        ledger.file_path = PathBuf::from(file_path);
+        // entries might be appended to the file later, no matter what the current directory is then
+        ledger.file_path =
+            std::path::absolute(file_path).unwrap_or_else(|_| PathBuf::from(file_path));
 
         if let Err(e) = ledger.add_from_file(file_path) {
             Err(e)
@@ -58,9 +60,17 @@ impl Ledger {
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
+        let previous_dir = std::env::current_dir();
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
-        self.add_from_str(&s)
+        let result = self.add_from_str(&s);
+
+        // change back, so that other relative paths aren't affected by this file's location
+        if let Ok(d) = previous_dir {
+            std::env::set_current_dir(d).unwrap_or(());
+        }
+
+        result
     }
 
     /// Adds to the ledger from the contents parsed from the string
-- 
2.43.0


From 30242269a03ac2030f5e225364896d6583c21e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:35 +0000
Subject: [PATCH 18/37] fix: report files that include themselves

Journals and rules files that include themselves overflowed the stack.
---
 src/importer.rs   | 23 ++++++++++++++++++++++-
 src/ledger/mod.rs | 19 +++++++++++++++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index 5db8033..7734e0b 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -96,6 +96,9 @@ struct Rules {
     skip: i32,
     status: String,
     subrules: Vec<Subrules>,
+
+    /// The rules files being included right now.
+    open_files: Vec<PathBuf>,
 }
 
 impl Default for Rules {
@@ -116,6 +119,7 @@ impl Default for Rules {
             skip: 1,
             status: String::from("~"),
             subrules: Default::default(),
+            open_files: Default::default(),
         }
     }
 }
@@ -134,7 +138,24 @@ impl Rules {
         let s = fs::read_to_string(rules_file)
             .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
 
-        self.add_from_str(&s)
+        // files that include themselves would never end
+        let real_path = fs::canonicalize(rules_file)
+            .map_err(|e| SilverfoxError::file_error(rules_file, e))?;
+        if self.open_files.contains(&real_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!(
+                    "`{}` includes itself, directly or through other files",
+                    rules_file.display()
+                )),
+                context: None,
+            }));
+        }
+        self.open_files.push(real_path);
+
+        let result = self.add_from_str(&s);
+        self.open_files.pop();
+
+        result
     }
 
     fn add_from_str(&mut self, s: &str) -> Result<(), SilverfoxError> {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 00cd620..3636fc0 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -23,6 +23,9 @@ pub struct Ledger {
     accounts: HashMap<String, Account>,
     default_currency: String,
     decimal_symbol: char,
+
+    /// The files being parsed right now: the ledger's file, and the files it's included through.
+    open_files: Vec<PathBuf>,
 }
 
 impl Ledger {
@@ -35,6 +38,7 @@ impl Ledger {
             accounts: HashMap::new(),
             default_currency: String::new(),
             decimal_symbol: '.',
+            open_files: Vec::new(),
         }
     }
 
@@ -57,6 +61,20 @@ impl Ledger {
         let s = fs::read_to_string(file_path)
             .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
 
+        // files that include themselves would never end
+        let real_path = fs::canonicalize(file_path)
+            .map_err(|e| SilverfoxError::file_error(PathBuf::from(file_path), e))?;
+        if self.open_files.contains(&real_path) {
+            return Err(SilverfoxError::from(ParseError {
+                message: Some(format!(
+                    "`{}` includes itself, directly or through other files",
+                    file_path.display()
+                )),
+                context: None,
+            }));
+        }
+        self.open_files.push(real_path);
+
         // change directory to parent after reading to string, and before parsing
         let parent_dir = file_path.parent().unwrap();
 
@@ -64,6 +82,7 @@ impl Ledger {
         std::env::set_current_dir(parent_dir).unwrap_or(());
 
         let result = self.add_from_str(&s);
+        self.open_files.pop();
 
         // change back, so that other relative paths aren't affected by this file's location
         if let Ok(d) = previous_dir {
-- 
2.43.0


From 21ee4cd890587511411593929937c304ed1fd9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 19/37] fix: never append entries that can't be read back, and
 import all or nothing

Entries were written to the journal before anything checked them. An import
with an undefined account (even `expenses:unknown`, which silverfox adds by
itself), an unclosed `[` in a description or an amount that can't be taken
from an envelope left a journal behind that couldn't be opened anymore. And if
a record in the middle of a csv file was bad, the ones before it had been
imported already and would be duplicated by the next try.

Entries are now added the way they'll be read, all of them, before they're
written.
---
 src/ledger/mod.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 3636fc0..bb9aade 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -210,19 +210,30 @@ impl Ledger {
         Ok(())
     }
 
-    /// Appends the entry to the file of the Ledger, then internally adds the Entry itself to the
-    /// Ledger.
-    fn append_entry(&mut self, entry: Entry) -> Result<(), SilverfoxError> {
+    /// Adds the entries to the Ledger, then appends them to the file of the Ledger.
+    ///
+    /// The file is only touched if all of the entries can be read back from it later on. Otherwise,
+    /// a single bad entry would make the whole file unusable.
+    fn append_entries(&mut self, entries: Vec<Entry>) -> Result<(), SilverfoxError> {
+        let mut text = String::new();
+        for entry in entries {
+            let parsable = entry.as_parsable(&self.date_format);
+            self.add_from_str(&parsable)?;
+
+            text.push('\n');
+            text.push_str(&parsable);
+        }
+
         let mut file = match fs::OpenOptions::new().append(true).open(&self.file_path) {
             Ok(f) => f,
             Err(e) => return Err(SilverfoxError::file_error(&self.file_path, e)),
         };
 
-        if let Err(e) = write!(file, "\n{}", entry.as_parsable(&self.date_format)) {
+        if let Err(e) = file.write_all(text.as_bytes()) {
             return Err(SilverfoxError::Basic(format!("{e}")));
         }
 
-        self.add_entry(entry)
+        Ok(())
     }
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
@@ -331,7 +342,7 @@ impl Ledger {
             Some(String::from("automatically generated by silverfox")),
         );
 
-        self.append_entry(entry)
+        self.append_entries(vec![entry])
     }
 
     pub fn import_csv(
@@ -347,16 +358,10 @@ impl Ledger {
             CsvImporter::from_file(csv_file, account_set)
         }?;
 
-        for result in imp {
-            match result {
-                Ok(e) => {
-                    self.append_entry(e)?;
-                }
-                Err(e) => return Err(e),
-            }
-        }
+        // if there's an issue with any of the records, don't import only some of them
+        let entries = imp.collect::<Result<Vec<Entry>, SilverfoxError>>()?;
 
-        Ok(())
+        self.append_entries(entries)
     }
 
     /// Display a register of all transactions from `begin_date` (inclusive) to `end_date` (also
-- 
2.43.0


From 3416d1061eab1616e259a8c3c4ab527c4a1b505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:05 +0000
Subject: [PATCH 20/37] fix: keep imported line breaks out of entry headers

A line break in a csv field ended up in the journal as is, where the rest of the
text was read as a posting or even as a directive.
---
 src/entry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 7860161..f9ce3e5 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -558,6 +558,10 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
             s.push_str(format!("{} {} {}\n", date, self.status, self.description).as_str());
         }
 
+        // a header is a single line. imported text might contain line breaks, though
+        s = s.trim_end().replace('\n', " ");
+        s.push('\n');
+
         for posting in &self.postings {
             s.push_str(format!("    {}\n", posting.as_parsable()).as_str());
         }
-- 
2.43.0


From eb93c1d988850b21a7a6a070e14d8472fc263644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:34 +0000
Subject: [PATCH 21/37] fix: whitespace in csv import rules

- rules with non-ascii names or whitespace crashed (char positions were used as
  byte positions), and so did a blank `decimal_symbol`
- whitespace in front of a comment became part of the rule's value or pattern, so
  `skip 2 // comment` was an error, `if foo // comment` didn't match `foo`,
  and `if // comment` matched every record
---
 src/importer.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 7734e0b..9105208 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -183,7 +183,7 @@ impl Rules {
                         } else {
                             // a line starting with a non-whitespace character is a pattern to the
                             // Subrules
-                            s.patterns.push(String::from(line));
+                            s.patterns.push(String::from(line.trim_end()));
                         }
                     }
 
@@ -217,9 +217,15 @@ impl Rules {
 
             if line.starts_with("if") {
                 parsing_subrules = Some(Subrules::from(&*self));
-                if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+                if let Some(i) = line.find(char::is_whitespace) {
+                    // a blank pattern would match every record
+                    let pattern = line[i..].trim();
+                    if pattern.is_empty() {
+                        continue;
+                    }
+
                     if let Some(s) = parsing_subrules.as_mut() {
-                        s.patterns.push(String::from(&line[i + 1..]))
+                        s.patterns.push(String::from(pattern))
                     } else {
                         unreachable!()
                     }
@@ -240,7 +246,7 @@ impl Rules {
     fn add_from_line(&mut self, mut line: &str) -> Result<(), SilverfoxError> {
         line = line.trim_start();
 
-        let split_index = if let Some(i) = line.chars().position(|c| c.is_whitespace()) {
+        let split_index = if let Some(i) = line.find(char::is_whitespace) {
             i
         } else {
             return Err(SilverfoxError::from(ParseError {
@@ -256,9 +262,7 @@ impl Rules {
         let rule_name = &line[..split_index];
 
         // the rest of the line is the value
-        let rule_value = String::from(&line[split_index + 1..])
-            .trim_start()
-            .to_string();
+        let rule_value = line[split_index..].trim().to_string();
 
         if rule_value.trim() == "-" {
             // resets a value
@@ -312,7 +316,7 @@ impl Rules {
                 "date_format" => self.date_format = rule_value,
                 "date" => self.date_str = rule_value,
                 "decimal_symbol" | "decimal" => {
-                    if rule_value.len() > 1 {
+                    if rule_value.chars().count() != 1 {
                         return Err(SilverfoxError::from(ParseError {
                             message: Some(
                                 "decimal_symbol should be a single character".to_string(),
-- 
2.43.0


From ff6bbbd3a72eb30fcd57aee9e6e3b516cba2dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:34 +0000
Subject: [PATCH 22/37] fix: don't inject variables into csv values

Variables were replaced one after another in random order, so a csv value that
looks like a variable could get replaced by the value of another field, or not,
and `%%` in a value became `%`.
---
 src/importer.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/importer.rs b/src/importer.rs
index 9105208..e216091 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -504,13 +504,29 @@ impl Rules {
     }
 
     fn inject_variables(s: &str, variables: &HashMap<String, String>) -> String {
-        let mut result = String::from(s);
-
-        for (v_name, v_value) in variables.iter() {
-            result = result.replace(format!("%{v_name}%").as_str(), v_value);
+        let mut result = String::new();
+        let mut rest = s;
+
+        // inject in a single pass, so that injected values aren't searched for variables themselves
+        while let Some(i) = rest.find('%') {
+            result.push_str(&rest[..i]);
+            rest = &rest[i + 1..];
+
+            match rest.find('%').map(|j| (&rest[..j], j)) {
+                Some((_, 0)) => {
+                    // literal %
+                    result.push('%');
+                    rest = &rest[1..];
+                }
+                Some((name, j)) if variables.contains_key(name) => {
+                    result.push_str(&variables[name]);
+                    rest = &rest[j + 1..];
+                }
+                _ => result.push('%'),
+            }
         }
 
-        result = result.replace("%%", "%"); // literal %
+        result.push_str(rest);
 
         result
     }
-- 
2.43.0


From 14e97dc7833ea452d4ef308564facac4ec7a0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:35 +0000
Subject: [PATCH 23/37] fix: require account definitions for envelope postings,
 too

A typo in the account of an envelope posting was ignored silently.
---
 src/posting.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/posting.rs b/src/posting.rs
index 86ec071..ac9ec69 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -29,7 +29,7 @@ impl EnvelopePosting {
     pub fn parse(
         line: &str,
         decimal_symbol: char,
-        _accounts: &HashSet<&String>,
+        accounts: &HashSet<&String>,
     ) -> Result<Self, ParseError> {
         let mut tokens = line.split_whitespace().skip(1);
 
@@ -42,6 +42,15 @@ impl EnvelopePosting {
             });
         };
 
+        if !accounts.contains(&account_name) {
+            return Err(ParseError {
+                message: Some(format!(
+                    "the account `{account_name}` is not defined in your journal"
+                )),
+                context: Some(line.to_string()),
+            });
+        }
+
         let envelope_name = if let Some(e) = tokens.next() {
             String::from(e)
         } else {
-- 
2.43.0


From c71bed33fbfe862b005af0af6b4ab7e9ea0152ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:36 +0000
Subject: [PATCH 24/37] fix: reject an expense and a goal with the same name in
 one account

Every movement to either of them was applied to both, counting the money
twice.
---
 src/account.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/account.rs b/src/account.rs
index e783319..a64cd1e 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -109,14 +109,18 @@ impl Account {
     }
 
     pub fn add_envelope(&mut self, envelope: Envelope) -> Result<(), ValidationError> {
+        // envelope postings only use a name, so it has to be unique across both types
+        let envelope_exists = self
+            .expense_envelopes
+            .iter()
+            .chain(self.goal_envelopes.iter())
+            .any(|e| e.get_name() == envelope.get_name());
+
         let envelope_collection = match envelope.get_type() {
             EnvelopeType::Expense => &mut self.expense_envelopes,
             EnvelopeType::Goal => &mut self.goal_envelopes,
         };
 
-        let envelope_exists = envelope_collection
-            .iter()
-            .any(|e| e.get_name() == envelope.get_name());
         if envelope_exists {
             Err(ValidationError {
                 message: Some(format!(
-- 
2.43.0


From 62ab3d72f1e56bdbbaea69728db4f92ba88ba1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:17 +0000
Subject: [PATCH 25/37] fix: report unusable date formats

A format with, say, an hour in it crashed as soon as a date was written.
---
 src/ledger/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index bb9aade..43b9145 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -161,6 +161,15 @@ impl Ledger {
 
     fn set_date_format(&mut self, date_format: Option<&str>) -> Result<(), SilverfoxError> {
         if let Some(d) = date_format {
+            // dates have to be written with this format, too
+            let formatted = Local::now().date_naive().format(d);
+            if std::fmt::write(&mut String::new(), format_args!("{formatted}")).is_err() {
+                return Err(SilverfoxError::from(ParseError {
+                    context: Some(d.to_string()),
+                    message: Some("this date format can't be used for dates".to_string()),
+                }));
+            }
+
             self.date_format = d.into();
             Ok(())
         } else {
-- 
2.43.0


From 51098d965d8544cb1f73b480a02eeb6d0a166965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:19 +0000
Subject: [PATCH 26/37] fix: check balance assertions

Balance assertions (`! amount`) were parsed, but never checked, so a wrong one
was accepted silently.
---
 src/account.rs | 34 ++++++++++++++++++++++++++++++++++
 src/posting.rs |  8 ++++++++
 2 files changed, 42 insertions(+)

diff --git a/src/account.rs b/src/account.rs
index a64cd1e..aa3afd0 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -161,12 +161,46 @@ impl Account {
                         Err(e) => return Err(e),
                     }
                 }
+
+                self.check_balance_assertion(posting, entry)?;
             }
         }
 
         Ok(())
     }
 
+    /// Checks that the real value of this Account, in the currency of the assertion (or else of the
+    /// posting), is what the posting's balance assertion expects it to be.
+    fn check_balance_assertion(
+        &self,
+        posting: &Posting,
+        entry: &Entry,
+    ) -> Result<(), ProcessingError> {
+        let Some(assertion) = posting.get_balance_assertion() else {
+            return Ok(());
+        };
+
+        let amount = match posting.get_amount() {
+            Some(a) => Some(a.clone()),
+            None => entry.get_blank_amount()?,
+        };
+        let symbol = assertion.symbol.clone().or(amount.and_then(|a| a.symbol));
+        let balance = self.real_value.only(&symbol);
+
+        // allow for the limits of floating point precision
+        if (balance.mag - assertion.mag).abs() > (assertion.mag.abs() * 1e-9).max(1e-6) {
+            let message = format!(
+                "the balance of `{}` was expected to be {}, but it's {}",
+                self.name, assertion, balance
+            );
+            return Err(ProcessingError::default()
+                .set_message(&message)
+                .set_context(&entry.as_full_string()));
+        }
+
+        Ok(())
+    }
+
     pub fn display_envelopes(&self) {
         // if no envelopes to display, quit
         if self.expense_envelopes.is_empty() && self.goal_envelopes.is_empty() {
diff --git a/src/posting.rs b/src/posting.rs
index ac9ec69..8cfdac5 100644
--- a/src/posting.rs
+++ b/src/posting.rs
@@ -165,6 +165,14 @@ impl Posting {
         }
     }
 
+    /// Returns what the balance of the Posting's account is expected to be after this Posting
+    pub fn get_balance_assertion(&self) -> Option<&Amount> {
+        match self {
+            Self::Envelope(_) => None, // not applicable to envelope postings
+            Self::Classic(c) => c.balance_assertion.as_ref(),
+        }
+    }
+
     pub fn get_original_native_value(&self) -> Option<f64> {
         match self {
             Self::Envelope(_) => None, // not applicable to envelope postings
-- 
2.43.0


From 6cd362e4949bf6383821398b1814265e16ba677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:34 +0000
Subject: [PATCH 27/37] fix: round automatic envelope movements before they're
 made

Amounts are rounded when they're written, but the money available to the other
envelopes was calculated with the unrounded ones. Leftovers were moved to them as
zero amounts, or moved by the next run on the same day.
---
 src/amount.rs   | 2 +-
 src/envelope.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index bba4973..08a58ff 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -75,7 +75,7 @@ impl Amount {
         !is_mag_char(c, decimal_symbol) && c != '.' && c != ','
     }
 
-    fn rounded_mag(&self) -> f64 {
+    pub fn rounded_mag(&self) -> f64 {
         (self.mag * 100_000_000.0).round() / 100_000_000.0
     }
 }
diff --git a/src/envelope.rs b/src/envelope.rs
index ada291a..db650b7 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -892,7 +892,12 @@ envelope. hopefully that all makes sense!", self.name, self.account);
     /// Returns a posting with this Envelope's fill amount for the day. `account` is passed so that
     /// the program can determine how much money we have available.
     pub fn get_filling_posting(&self, account_available_value: &AmountPool) -> EnvelopePosting {
-        let amount = self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+        let mut amount =
+            self.get_filling_amount(&account_available_value.only(&self.amount.symbol));
+
+        // only move what will be written. otherwise, the leftovers would be missing from (or left
+        // in) the available value for other envelopes
+        amount.mag = amount.rounded_mag();
 
         EnvelopePosting::new(self.account.clone(), amount, self.name.clone())
     }
-- 
2.43.0


From 7ee5eee6ecd746e6fe9ba84c963b24bca78d2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:30 +0000
Subject: [PATCH 28/37] fix: don't overdraw an account for its overspent
 envelopes

Making up for an envelope's negative balance came after the limits to the
money that's available and to the envelope's amount, and ignored both.
---
 src/envelope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index db650b7..7e99bb7 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -859,9 +859,9 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     let mag = self
                         .amount
                         .mag
+                        .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
                         .min(account_available_amount.mag) // makes sure the account value stays positive :)
                         .min(remaining_amount.mag) // prevents envelope overflow
-                        .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
                         .max(0.0); // never take money from an envelope
 
                     Amount {
@@ -874,9 +874,9 @@ envelope. hopefully that all makes sense!", self.name, self.account);
                     let date_diff = next_due_date.signed_duration_since(today);
                     let days_remaining = date_diff.num_days();
                     let mag = (remaining_amount.mag / days_remaining as f64)
+                        .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
                         .min(account_available_amount.mag) // makes sure the account value stays positive
                         .min(remaining_amount.mag) // prevents envelope overflow
-                        .max(-self.get_total_amount_mag()) // makes sure there are no negative envelope balances
                         .max(0.0); // never take money from an envelope
 
                     // return that
-- 
2.43.0


From 1a38f74652e13e422f94644461795509244ef94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:30 +0000
Subject: [PATCH 29/37] fix: don't fill envelopes again if older entries follow
 today's

Whether an envelope has been used today depended on the order of the entries.
---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 7e99bb7..2255ae7 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -817,7 +817,10 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             }
         }
 
-        self.last_transaction_date = date;
+        // entries don't have to be in order, so don't forget about today's
+        if self.last_transaction_date != Local::now().date_naive() {
+            self.last_transaction_date = date;
+        }
     }
 
     pub fn get_type(&self) -> &EnvelopeType {
-- 
2.43.0


From 06e90c64375d44c7ddb77af469add8cb36e32c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:56 +0000
Subject: [PATCH 30/37] fix: treat rounding errors as zero in the register and
 in envelope inference

Amounts like 0.1, 0.2 and -0.3 cancel out, but their floating point sum isn't
zero.
---
 src/amount.rs   | 2 +-
 src/entry.rs    | 4 ++--
 src/envelope.rs | 6 +++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 08a58ff..588a071 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -374,7 +374,7 @@ impl AmountPool {
         }
 
         for amt in &self.pool {
-            if amt.mag != 0.0 {
+            if amt.rounded_mag() != 0.0 {
                 return false;
             }
         }
diff --git a/src/entry.rs b/src/entry.rs
index f9ce3e5..044fb7f 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -465,9 +465,9 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                     self.get_blank_amount()?.unwrap()
                 };
 
-                if amount.mag > 0.0 {
+                if amount.rounded_mag() > 0.0 {
                     positive_names.insert(name);
-                } else if amount.mag < 0.0 {
+                } else if amount.rounded_mag() < 0.0 {
                     negative_names.insert(name);
                 }
 
diff --git a/src/envelope.rs b/src/envelope.rs
index 2255ae7..c1ea2af 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -774,7 +774,11 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             .min(self_account_postings_sum.mag.abs());
 
         // only apply an amount if the magnitude to add is worth something
-        if abs_min_mag != 0.0 {
+        let abs_min = Amount {
+            mag: abs_min_mag,
+            symbol: self.amount.symbol.clone(),
+        };
+        if abs_min.rounded_mag() != 0.0 {
             // if the self_account_postings_sum is less than zero, then the amount we apply should be
             // negative
             let mag_to_apply = if self_account_postings_sum.mag < 0.0 {
-- 
2.43.0


From 80098d1e77bc5e096c6a72e48305f13770556883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:56 +0000
Subject: [PATCH 31/37] fix: due dates of envelopes whose starting date isn't
 on their schedule

Their next due date was the starting date itself, and the date on the schedule
before the starting date counted as their last due date.
---
 src/envelope.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index c1ea2af..b94a730 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -254,7 +254,11 @@ impl Frequency {
     // this function is pretty long, so we should probably break it into smaller functions
     /// Calculates and returns the next due date based on this Frequency.
     pub fn get_next_due_date(&self) -> Option<NaiveDate> {
-        let today = Local::now().date_naive();
+        self.get_next_due_date_after(Local::now().date_naive())
+    }
+
+    /// Calculates and returns the first due date after `today` based on this Frequency.
+    fn get_next_due_date_after(&self, today: NaiveDate) -> Option<NaiveDate> {
         match self {
             Self::Never => None,
             Self::Once(date) => {
@@ -928,26 +932,22 @@ envelope. hopefully that all makes sense!", self.name, self.account);
             return self.freq.get_next_due_date();
         };
 
-        let freq_next_date = if let Some(d) = self.freq.get_next_due_date() {
-            d
-        } else {
+        let today = Local::now().date_naive();
+        if self.freq.get_next_due_date().is_none() {
             // a starting date in the past isn't a due date anymore
-            return Some(starting_date).filter(|d| *d > Local::now().date_naive());
-        };
+            return Some(starting_date).filter(|d| *d > today);
+        }
 
-        Some(starting_date.max(freq_next_date))
+        // the starting date isn't necessarily on the schedule itself
+        let day_before_start = starting_date.pred_opt().unwrap_or(starting_date);
+        self.freq.get_next_due_date_after(today.max(day_before_start))
     }
 
     fn get_last_due_date(&self) -> Option<NaiveDate> {
-        // an envelope that hasn't started yet has never been due
-        if self
-            .starting_date
-            .is_some_and(|d| d > Local::now().date_naive())
-        {
-            return None;
-        }
-
-        self.freq.get_last_due_date()
+        // an envelope has never been due before it started
+        self.freq
+            .get_last_due_date()
+            .filter(|d| self.starting_date.is_none_or(|s| s <= *d))
     }
 
     pub fn get_freq(&self) -> &Frequency {
-- 
2.43.0


From c5cbf526a783ed19da9a4e74116d4f27d28b845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:03 +0000
Subject: [PATCH 32/37] fix: don't panic when a starting date is at the end of
 the calendar

---
 src/envelope.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index b94a730..3f3e7ab 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -271,9 +271,9 @@ impl Frequency {
             Self::Weekly(w) => {
                 // get next by weekday; keep adding to this 'next' variable until the weekday
                 // matches
-                let mut next = today + chrono::Duration::days(1);
+                let mut next = today.succ_opt()?;
                 while next.weekday() != *w {
-                    next += chrono::Duration::days(1);
+                    next = next.succ_opt()?;
                 }
 
                 Some(next)
@@ -293,7 +293,7 @@ impl Frequency {
                 Some(next)
             }
             Self::Monthly(day_of_month) => {
-                Some(Self::next_date_by_day_of_month(today, *day_of_month))
+                Self::next_date_by_day_of_month(today, *day_of_month)
             }
             Self::Bimonthly(starting_date) => {
                 if starting_date > &today {
@@ -349,12 +349,11 @@ impl Frequency {
     /// Returns the last day of the date's month
     fn get_last_date_of_month(date: NaiveDate) -> NaiveDate {
         NaiveDate::from_ymd_opt(date.year(), date.month() + 1, 1)
-            .unwrap_or_else(|| NaiveDate::from_ymd_opt(date.year() + 1, 1, 1).unwrap())
-            .pred_opt()
-            .unwrap()
+            .and_then(|d| d.pred_opt())
+            .unwrap_or_else(|| NaiveDate::from_ymd_opt(date.year(), 12, 31).unwrap())
     }
 
-    fn next_date_by_day_of_month(today: NaiveDate, day: u32) -> NaiveDate {
+    fn next_date_by_day_of_month(today: NaiveDate, day: u32) -> Option<NaiveDate> {
         let last_date_this_month = Self::get_last_date_of_month(today);
 
         // gets the due date with the day argument. if the day doesn't exist for this
@@ -362,7 +361,7 @@ impl Frequency {
         let due_date_this_month = today.with_day(day).unwrap_or(last_date_this_month);
 
         if due_date_this_month > today {
-            due_date_this_month
+            Some(due_date_this_month)
         } else {
             // this modulus operation is a little confusing; we have to make sure the month is
             // zero-based, then add 2 months, mod so that the zero-based month wraps into next year
@@ -373,17 +372,14 @@ impl Frequency {
             // lead to this month's last date. to get the last date of next month, we
             // have to add 2 to today.month()
             let last_date_next_month = NaiveDate::from_ymd_opt(today.year(), today.month() + 2, 1)
-                .unwrap_or_else(|| {
-                    NaiveDate::from_ymd_opt(today.year() + 1, next_month_ordinal, 1).unwrap()
-                })
-                .pred_opt()
-                .unwrap();
+                .or_else(|| NaiveDate::from_ymd_opt(today.year() + 1, next_month_ordinal, 1))?
+                .pred_opt()?;
 
             // return the date with the year and month of `last_date_next_month`, and try with the
             // day provided. if the date with `day` doesn't work, use `last_date_next_month`
             last_date_next_month
                 .with_day(day)
-                .unwrap_or(last_date_next_month)
+                .or(Some(last_date_next_month))
         }
     }
 }
-- 
2.43.0


From 3244dcc91665fb0167e74397a072bc46b764b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 33/37] fix: `every other` schedules whose starting date isn't
 on them

---
 src/envelope.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 3f3e7ab..91516e7 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -119,7 +119,7 @@ pub enum Frequency {
     Weekly(chrono::Weekday),
     Biweekly(NaiveDate),
     Monthly(u32),
-    Bimonthly(NaiveDate),
+    Bimonthly(NaiveDate, u32),
     // Quarterly(NaiveDate),
     // Semiannually(NaiveDate),
     Annually(NaiveDate),
@@ -140,12 +140,18 @@ impl Frequency {
                 });
             }
 
-            // parse "every others"
+            // parse "every others", counted from the first one that's not before the starting date
             // remember: the `starting` clause is already trimmed
-            if Self::parse_weekday(what).is_some() {
-                Ok(Self::Biweekly(starting_date.unwrap()))
-            } else if Self::parse_day_of_month(what).is_some() {
-                Ok(Self::Bimonthly(starting_date.unwrap()))
+            let starting_date = starting_date.unwrap();
+            let day_before = starting_date.pred_opt().unwrap_or(starting_date);
+            let first = |f: Self| {
+                f.get_next_due_date_after(day_before)
+                    .unwrap_or(starting_date)
+            };
+            if let Some(w) = Self::parse_weekday(what) {
+                Ok(Self::Biweekly(first(Self::Weekly(w))))
+            } else if let Some(d) = Self::parse_day_of_month(what) {
+                Ok(Self::Bimonthly(first(Self::Monthly(d)), d))
             } else {
                 Err(ParseError {
                     context: Some(s.to_string()),
@@ -214,10 +220,9 @@ impl Frequency {
                 Self::Monthly(day) => {
                     Some(Self::clamp_to_day(Self::subtract_months(next_date, 1), *day))
                 }
-                Self::Bimonthly(d) => Some(Self::clamp_to_day(
-                    Self::subtract_months(next_date, 2),
-                    d.day(),
-                )),
+                Self::Bimonthly(_, day) => {
+                    Some(Self::clamp_to_day(Self::subtract_months(next_date, 2), *day))
+                }
                 Self::Annually(d) => Some(Self::date_in_year(*d, next_date.year() - 1)),
                 _ => None,
             }
@@ -279,8 +284,8 @@ impl Frequency {
                 Some(next)
             }
             Self::Biweekly(starting_date) => {
-                // ATTENTION: `w` is not needed here because `starting_date` is required to be on
-                // the same weekday as `w` itself
+                // ATTENTION: `w` is not needed here because `starting_date` has been moved to the
+                // same weekday as `w` itself
 
                 // if starting date is after today, use that
                 if starting_date > &today {
@@ -295,12 +300,11 @@ impl Frequency {
             Self::Monthly(day_of_month) => {
                 Self::next_date_by_day_of_month(today, *day_of_month)
             }
-            Self::Bimonthly(starting_date) => {
+            Self::Bimonthly(starting_date, day_of_month) => {
                 if starting_date > &today {
                     Some(*starting_date)
                 } else {
                     // brute force method until we find something better to do...
-                    let day_of_month = starting_date.day();
                     let mut date = *starting_date;
                     while date <= today {
                         let month0_plus_two = date.month0() + 2;
@@ -309,7 +313,7 @@ impl Frequency {
 
                         // basically create a new date with the month, year and day
                         date = if let Some(x) =
-                            NaiveDate::from_ymd_opt(new_year, new_month, day_of_month)
+                            NaiveDate::from_ymd_opt(new_year, new_month, *day_of_month)
                         {
                             x
                         } else {
-- 
2.43.0


From 5bded218015784aa8f4b75148fc14db4df5ab759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 34/37] fix: keep the value and envelopes of an account that's
 defined again

---
 src/account.rs    | 13 +++++++++++++
 src/ledger/mod.rs |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/account.rs b/src/account.rs
index aa3afd0..f566b2a 100644
--- a/src/account.rs
+++ b/src/account.rs
@@ -136,6 +136,19 @@ impl Account {
         }
     }
 
+    /// Adds the envelopes of another definition of this Account.
+    pub fn add_definition(&mut self, other: Account) -> Result<(), ValidationError> {
+        for envelope in other
+            .expense_envelopes
+            .into_iter()
+            .chain(other.goal_envelopes)
+        {
+            self.add_envelope(envelope)?;
+        }
+
+        Ok(())
+    }
+
     /// Processes the Entry by looking for any changes to envelope amounts and applying them. Also
     /// adds to the real_value of the Account.
     pub fn process_entry(&mut self, entry: &Entry) -> Result<(), ProcessingError> {
diff --git a/src/ledger/mod.rs b/src/ledger/mod.rs
index 43b9145..7c57e3c 100644
--- a/src/ledger/mod.rs
+++ b/src/ledger/mod.rs
@@ -247,7 +247,13 @@ impl Ledger {
 
     fn parse_account(&mut self, chunk: &str) -> Result<(), SilverfoxError> {
         let a = Account::parse(chunk, self.decimal_symbol, &self.date_format)?;
-        self.accounts.insert(a.get_name().to_string(), a);
+
+        // an account that's defined again keeps its value and its envelopes
+        if let Some(existing) = self.accounts.get_mut(a.get_name()) {
+            existing.add_definition(a)?;
+        } else {
+            self.accounts.insert(a.get_name().to_string(), a);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 26e6a8c769fca2efe40cb5f412e1a9e1c0b0d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:27 +0000
Subject: [PATCH 35/37] fix: don't lose digits when rounding large amounts

---
 src/amount.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/amount.rs b/src/amount.rs
index 588a071..281bf67 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -76,7 +76,8 @@ impl Amount {
     }
 
     pub fn rounded_mag(&self) -> f64 {
-        (self.mag * 100_000_000.0).round() / 100_000_000.0
+        // multiplying by a power of ten would lose digits of large magnitudes
+        format!("{:.8}", self.mag).parse().unwrap_or(self.mag)
     }
 }
 
-- 
2.43.0


From 88ecfc4f42fbb343a19d6dbe7570dc086bc0651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:41 +0000
Subject: [PATCH 36/37] fix: Don't accept amounts that are too large to be
 balanced

---
 src/amount.rs | 4 ++--
 src/entry.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/amount.rs b/src/amount.rs
index 281bf67..6a4b363 100644
--- a/src/amount.rs
+++ b/src/amount.rs
@@ -39,8 +39,8 @@ impl Amount {
         }
 
         let mag = match raw_mag.parse::<f64>() {
-            Ok(m) => m,
-            Err(_) => {
+            Ok(m) if m.is_finite() => m,
+            _ => {
                 return Err(ParseError {
                     message: Some(String::from("couldn't parse magnitude of amount")),
                     context: Some(s.to_string()),
diff --git a/src/entry.rs b/src/entry.rs
index 044fb7f..404c500 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -324,7 +324,7 @@ currency's worth in your native currency.").set_context(&self.as_full_string());
                 .filter_map(|p| p.get_amount())
                 .map(|a| a.mag);
             let sum = mags.clone().sum::<f64>();
-            let total = mags.map(f64::abs).sum::<f64>();
+            let total = mags.map(f64::abs).sum::<f64>().min(f64::MAX);
 
             // allow for the limits of floating point precision
             if sum.abs() > (total * 1e-12).max(1e-8) {
-- 
2.43.0


From 0ae7f91302ef91c2d9bdefb9a102faa0650d9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:10 +0000
Subject: [PATCH 37/37] fix: Don't let the rules of an import double with each
 `if` block

---
 src/importer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/importer.rs b/src/importer.rs
index e216091..6deb2f3 100644
--- a/src/importer.rs
+++ b/src/importer.rs
@@ -548,9 +548,14 @@ impl Subrules {
 
 impl From<&Rules> for Subrules {
     fn from(other: &Rules) -> Self {
+        // earlier subrules don't apply if these do. keeping them in here as well would double the
+        // number of subrules each time
+        let mut rules = other.clone();
+        rules.subrules.clear();
+
         Self {
             patterns: Default::default(),
-            rules: other.clone(),
+            rules,
         }
     }
 }
-- 
2.43.0

