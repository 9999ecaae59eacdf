From 0b3405242122fcc88d92fdb906496d156c6c6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 1/4] fix: do not panic when a subtag is looked up past the end
 of the tag

---
 src/normal/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 6b310f3..50a9ea9 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -180,6 +180,12 @@ impl Hash for NormalLangTag {
 /// subtag is part of the list.
 fn find_list_end(string: &str, mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {
 	let bytes = string.as_bytes();
+
+	// The previous subtag is the last one: there is no list to look for.
+	if offset > bytes.len() {
+		return offset;
+	}
+
 	let mut i = offset;
 	let mut end = i;
 	while i < bytes.len() {
-- 
2.43.0


From 020dc2c0be8d462b1324b2e21c54e4fc699ed1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 2/4] fix: do not include the extensions in the private use
 subtags

---
 src/normal/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normal/mod.rs b/src/normal/mod.rs
index 50a9ea9..9d68b1d 100644
--- a/src/normal/mod.rs
+++ b/src/normal/mod.rs
@@ -127,10 +127,10 @@ impl NormalLangTag {
 	}
 
 	fn private_use_offset(&self) -> Option<usize> {
-		let variants_end = self.variants_range().end;
+		let extensions_end = self.extensions_range().end;
 
-		if variants_end < self.0.len() {
-			Some(variants_end + 1)
+		if extensions_end < self.0.len() {
+			Some(extensions_end + 1)
 		} else {
 			None
 		}
-- 
2.43.0


From 39c46d41406a6c82535978afc1fd88358c317dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 3/4] fix: look up extensions by singleton regardless of case

---
 src/normal/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normal/extension.rs b/src/normal/extension.rs
index 4c52dd1..81cb07d 100644
--- a/src/normal/extension.rs
+++ b/src/normal/extension.rs
@@ -217,7 +217,9 @@ impl Extensions {
 		let mut starting = true;
 		while i + 1 < self.0.len() {
 			if starting {
-				if bytes[i] == singleton.0 && bytes[i + 1] == b'-' {
+				if utils::into_smallcase(bytes[i]) == utils::into_smallcase(singleton.0)
+					&& bytes[i + 1] == b'-'
+				{
 					let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
 
 					return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
-- 
2.43.0


From 455afa3121fc0af1e085fd42e6a60dbbeb15aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 4/4] fix: accept every primary language subtag a tag can have

---
 src/grammar.abnf |  6 ++++--
 src/grammar.rs   | 25 ++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/grammar.abnf b/src/grammar.abnf
index 0a8c609..e0bda79 100644
--- a/src/grammar.abnf
+++ b/src/grammar.abnf
@@ -9,13 +9,15 @@ langtag       = language
                *("-" extension)
                ["-" privateuse]
 
-language      = primary             ; shortest ISO 639 code
+language      = 2*3ALPHA            ; shortest ISO 639 code
                ["-" extlang]        ; sometimes followed by
                                     ; extended language subtags
               / 4ALPHA              ; or reserved for future use
               / 5*8ALPHA            ; or registered language subtag
 
-primary       = 2*3ALPHA
+primary       = 2*3ALPHA            ; shortest ISO 639 code
+              / 4ALPHA              ; or reserved for future use
+              / 5*8ALPHA            ; or registered language subtag
 
 extlang       = extlang-tag         ; selected ISO 639 codes
                 *2("-" extlang-tag) ; permanently reserved
diff --git a/src/grammar.rs b/src/grammar.rs
index d828ecd..ab771a7 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -1822,12 +1822,35 @@ impl Primary {
 				'A'..='Z' | 'a'..='z' => 3u32,
 				_ => return false,
 			},
+			3u32 => match token {
+				'A'..='Z' | 'a'..='z' => 4u32,
+				_ => return false,
+			},
+			4u32 => match token {
+				'A'..='Z' | 'a'..='z' => 5u32,
+				_ => return false,
+			},
+			5u32 => match token {
+				'A'..='Z' | 'a'..='z' => 6u32,
+				_ => return false,
+			},
+			6u32 => match token {
+				'A'..='Z' | 'a'..='z' => 7u32,
+				_ => return false,
+			},
+			7u32 => match token {
+				'A'..='Z' | 'a'..='z' => 8u32,
+				_ => return false,
+			},
 			_ => return false,
 		};
 		true
 	}
 	pub const fn is_accepting(&self) -> bool {
-		matches!(self.state, 2u32 | 3u32)
+		matches!(
+			self.state,
+			2u32 | 3u32 | 4u32 | 5u32 | 6u32 | 7u32 | 8u32
+		)
 	}
 	pub const fn validate_str(s: &str) -> bool {
 		Self::validate_bytes(s.as_bytes())
-- 
2.43.0

