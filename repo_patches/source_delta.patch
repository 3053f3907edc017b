From acb4dc33ff75a01bcd1d500d32311f4d28127456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 1/4] fix: do not slice past the end of the tag when it has no
 further subtag

The script, region, variants, extensions and private_use accessors of NormalLangTag
panicked (str index out of range) on tags ending before the requested component,
e.g. `fr`.
---
 src/normal/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..ea57ecd 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -180,6 +180,12 @@ impl Hash for NormalLangTag {
 /// subtag is part of the list.
 fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {
 	let bytes = string.as_bytes();
+
+	if offset > bytes.len() {
+		// Nothing follows the previous subtag: the list is empty.
+		return offset;
+	}
+
 	let mut i = offset;
 	let mut end = i;
 	while i < bytes.len() {
-- 
2.43.0


From b4025b42c921159e0add70029c5df2389cbe33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 2/4] fix: private use subtags start after the extensions, not
 after the variants

`fr-a-foo-x-bar`.private_use() returned `a-foo-x-bar`, an invalid PrivateUse.
---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index ea57ecd..7af2910 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From 1700132271218db9caef347521e27ed7d439f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 3/4] fix: look extensions up by singleton regardless of letter
 case

Subtags are case-insensitive, yet `A-foo` had no extension `a`.
---
 src/normal/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..81cb07d 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -217,7 +217,9 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if utils::into_smallcase(bytes[i]) == utils::into_smallcase(singleton.0)
+					&& bytes[i + 1] == b'-'
+				{
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From 045219e615df0c60982380cdf120dd5a172ecfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 4/4] fix: accept 4 to 8 letters primary languages as
 PrimaryLanguage

`Language::primary` hands out the first subtag, which RFC 5646 allows to be 4 to 8
letters long, but the `primary` rule only accepted 2 or 3: `abcd`.primary() was an
invalid PrimaryLanguage that did not even equal "abcd".
---
 src/grammar.abnf |  4 ++--
 src/grammar.rs   | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..193de89 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,13 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*8ALPHA            ; first subtag of a language
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..ab771a7 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,35 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(
+			self.state,
+			2u32 | 3u32 | 4u32 | 5u32 | 6u32 | 7u32 | 8u32
+		)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0

