From a8dbdb7667909f6453891ff103cad4b0e1536610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 01/13] fix: Count message/rfc822 nesting against the body
 recursion limit

The limit was reset for every nested message body, so that a deeply nested
BODYSTRUCTURE overflowed the stack. Every level of nesting now counts once.
---
 imap-codec/src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/imap-codec/src/body.rs b/imap-codec/src/body.rs
index b78f51c..666cf53 100644
--- a/imap-codec/src/body.rs
+++ b/imap-codec/src/body.rs
@@ -70,7 +70,7 @@ fn body_type_1part_limited(
         }));
     }
 
-    let body_type_msg = |input| body_type_msg_limited(input, 8);
+    let body_type_msg = |input| body_type_msg_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         alt((body_type_msg, body_type_text, body_type_basic)),
@@ -127,7 +127,7 @@ fn body_type_msg_limited(
         }));
     }
 
-    let body = |input| body_limited(input, remaining_recursions.saturating_sub(1));
+    let body = |input| body_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         media_message,
-- 
2.43.0


From dbbff7bb24411a69052e3b6b1cfffe3762f3718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 02/13] fix: Encode FETCH MODSEQ data item with parentheses
 (RFC 7162)

---
 imap-codec/src/codec/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/codec/encode.rs b/imap-codec/src/codec/encode.rs
index 6433227..edbaddb 100644
--- a/imap-codec/src/codec/encode.rs
+++ b/imap-codec/src/codec/encode.rs
@@ -1777,7 +1777,7 @@ impl EncodeIntoContext for MessageDataItem<'_> {
                 size.encode_ctx(ctx)
             }
             #[cfg(feature = "ext_condstore_qresync")]
-            Self::ModSeq(value) => write!(ctx, "MODSEQ {value}"),
+            Self::ModSeq(value) => write!(ctx, "MODSEQ ({value})"),
         }
     }
 }
-- 
2.43.0


From 755354a173504ca02a0ea48f04f9b2a43227ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 03/13] fix: Recognize SCRAM-SHA3-512(-PLUS) authentication
 mechanisms

---
 imap-types/src/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 3a7ed8a..1847b95 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -157,6 +157,8 @@ impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
             "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
             "SCRAM-SHA-256" => Self::ScramSha256,
             "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
+            "SCRAM-SHA3-512" => Self::ScramSha3_512,
+            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
             _ => Self::Other(AuthMechanismOther(atom)),
         }
     }
-- 
2.43.0


From 389f537fd449ef13efcc3fda2fd734249a4bdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 04/13] fix: Recognize NAMESPACE capability

---
 imap-types/src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 9517dd4..e36514b 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1231,6 +1231,8 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
             #[cfg(feature = "ext_condstore_qresync")]
             "qresync" => Self::QResync,
             "uidplus" => Self::UidPlus,
+            #[cfg(feature = "ext_namespace")]
+            "namespace" => Self::Namespace,
             #[cfg(feature = "ext_utf8")]
             "utf8=accept" => Self::Utf8(Utf8Kind::Accept),
             #[cfg(feature = "ext_utf8")]
-- 
2.43.0


From 19579511af704478cc5f2ead856c8f50a6a453f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 05/13] fix: Keep case of unknown QUOTA=RES-* resources and
 require the RES- prefix

---
 imap-types/src/response.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index e36514b..dd82d53 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1254,13 +1254,14 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
                             }
                         }
                         "quota" => {
-                            if let Some((_, right)) =
-                                right.as_ref().to_ascii_lowercase().split_once("res-")
-                            {
-                                // TODO(efficiency)
-                                if let Ok(resource) = Resource::try_from(right.to_owned()) {
-                                    return Self::QuotaRes(resource);
+                            match right.split_at_checked(4) {
+                                Some((prefix, right)) if prefix.eq_ignore_ascii_case("res-") => {
+                                    // TODO(efficiency)
+                                    if let Ok(resource) = Resource::try_from(right.to_owned()) {
+                                        return Self::QuotaRes(resource);
+                                    }
                                 }
+                                _ => {}
                             }
                         }
                         "sort" => {
-- 
2.43.0


From 007864fa59186fc9d05fe11ab2b69936e479adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:20 +0000
Subject: [PATCH 06/13] fix: Reject CR and LF in quoted UTF-8 strings (RFC
 6855)

---
 imap-codec/src/extensions/utf8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/extensions/utf8.rs b/imap-codec/src/extensions/utf8.rs
index 604c804..7554519 100644
--- a/imap-codec/src/extensions/utf8.rs
+++ b/imap-codec/src/extensions/utf8.rs
@@ -40,7 +40,7 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
         dquote,
         map_res(
             escaped(
-                take_while1(|c| !is_quoted_specials(c)),
+                take_while1(|c| !is_quoted_specials(c) && c != b'\r' && c != b'\n'),
                 '\\',
                 one_of("\\\""),
             ),
-- 
2.43.0


From 2cd48bcd47f3abdf524c40c456d0db2a4b4c80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:20 +0000
Subject: [PATCH 07/13] fix: Reject sequence numbers with a leading plus sign

---
 imap-types/src/sequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 73d70b0..a32bc1b 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -438,7 +438,8 @@ impl FromStr for SeqOrUid {
             // This is to align parsing here with the IMAP grammar:
             // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0.
             // For example, 00001, is interpreted as 1. But this is not allowed in IMAP.
-            if value.starts_with('0') {
+            // It also accepts a leading "+", which is not allowed either.
+            if value.starts_with(['0', '+']) {
                 Err(ValidationError::new(ValidationErrorKind::Invalid))
             } else {
                 Ok(SeqOrUid::Value(NonZeroU32::from_str(value).map_err(
-- 
2.43.0


From cf284ba6cef42fb34dda27e8bf1f770b09f63136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:20 +0000
Subject: [PATCH 08/13] fix: Respect start of Range<NonZeroU32> and reject
 empty ranges

The start was replaced by 1 and an empty range such as 5..5 became 5:4.
---
 imap-types/src/sequence.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index a32bc1b..dc7244f 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -533,6 +533,10 @@ macro_rules! impl_try_from_num_range {
             type Error = ValidationError;
 
             fn try_from(range: Range<$num>) -> Result<Self, Self::Error> {
+                if range.is_empty() {
+                    return Err(ValidationError::new(ValidationErrorKind::Empty));
+                }
+
                 Ok(Self::Range(
                     SeqOrUid::try_from(range.start)?,
                     SeqOrUid::try_from(range.end.saturating_sub(1))?,
@@ -594,8 +598,12 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
     type Error = ValidationError;
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
+        if range.is_empty() {
+            return Err(ValidationError::new(ValidationErrorKind::Empty));
+        }
+
         Ok(Self::Range(
-            SeqOrUid::from(MIN),
+            SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
         ))
     }
-- 
2.43.0


From 297b5cfc7a9241da977b6be2a05e5900b2a07d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:20 +0000
Subject: [PATCH 09/13] fix: Keep * and the largest numbers apart when
 normalizing sequence sets

Normalizing turned a:4294967294 into a:*, 4294967294:* into 4294967294, and
4294967295 into *, i.e., selected different messages.
---
 imap-types/src/sequence.rs | 83 +++++++++++++-------------------------
 1 file changed, 29 insertions(+), 54 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index dc7244f..0156d62 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -1,6 +1,6 @@
 use std::{
     cmp::{Ordering, max},
-    collections::{HashSet, VecDeque},
+    collections::VecDeque,
     fmt::Debug,
     iter::Rev,
     mem,
@@ -37,71 +37,46 @@ pub struct SequenceSet(pub Vec1<Sequence>);
 
 impl SequenceSet {
     pub fn normalize(&mut self) -> &mut Self {
-        let mut singles = HashSet::with_capacity(self.0.0.len());
-        let mut ranges = Vec::with_capacity(self.0.0.len());
+        // `*` is larger than every number. Still, neither `4294967295` nor a range ending with
+        // it may become `*` (or vice versa), so use a position that isn't adjacent to any number.
+        const ASTERISK: u64 = u32::MAX as u64 + 2;
+
+        fn to_position(value: &SeqOrUid) -> u64 {
+            match value {
+                SeqOrUid::Value(value) => u64::from(value.get()),
+                SeqOrUid::Asterisk => ASTERISK,
+            }
+        }
 
-        // First, normalize all sequences
-        for seq in &mut self.0.0 {
-            match seq.normalize() {
-                Sequence::Single(id) => {
-                    singles.insert(id.to_non_zero_u32());
-                    // Push a 1-lenth range so they can merge nicely
-                    // later on
-                    ranges.push(id.to_non_zero_u32()..id.to_non_zero_u32().saturating_add(1));
-                }
-                Sequence::Range(a, b) => {
-                    ranges.push(a.to_non_zero_u32()..b.to_non_zero_u32().saturating_add(1));
-                }
+        fn from_position(position: u64) -> SeqOrUid {
+            match u32::try_from(position).ok().and_then(NonZeroU32::new) {
+                Some(value) => SeqOrUid::Value(value),
+                None => SeqOrUid::Asterisk,
             }
         }
 
-        // TODO: Improve this loop, for eg. with a .retain().
-        for single in singles.clone() {
-            for range in &mut ranges {
-                if single.get() == range.start.get().max(2) - 1 {
-                    singles.remove(&single);
-                    range.start = single;
-                } else if single.get() == range.end.get() {
-                    singles.remove(&single);
-                    range.end = single;
-                } else if range.contains(&single) {
-                    singles.remove(&single);
-                }
+        // First, normalize all sequences
+        let mut ranges = Vec::with_capacity(self.0.0.len());
+        for seq in &mut self.0.0 {
+            match seq.normalize() {
+                // Push a 1-length range so they can merge nicely later on
+                Sequence::Single(id) => ranges.push(to_position(id)..to_position(id) + 1),
+                Sequence::Range(a, b) => ranges.push(to_position(a)..to_position(b) + 1),
             }
         }
 
-        // Rebuild the inner sequence set with merged ranges
+        // Rebuild the inner sequence set with (sorted and) merged ranges
         self.0.0.clear();
         for range in merge_ranges(ranges) {
-            singles.retain(|single| !range.contains(single));
-
-            match (range.start, range.end) {
-                (a, b) if a == b || a.saturating_add(1) == b => {
-                    let a = NonZeroU32::new(a.get()).unwrap();
-                    self.0.0.push(Sequence::Single(a.into()));
-                }
-                (a, NonZeroU32::MAX) => {
-                    self.0.0.push(Sequence::Range(a.into(), SeqOrUid::Asterisk))
-                }
-                (a, b) => {
-                    let b = NonZeroU32::new(b.get().max(2) - 1).unwrap();
-                    self.0.0.push(Sequence::Range(a.into(), b.into()));
-                }
-            }
-        }
+            let (start, end) = (from_position(range.start), from_position(range.end - 1));
 
-        // Add remaining singles that don't belong to any range to the
-        // sequence set
-        for single in singles {
-            self.0.0.push(single.into());
+            self.0.0.push(if start == end {
+                Sequence::Single(start)
+            } else {
+                Sequence::Range(start, end)
+            });
         }
 
-        // Sort the merged sequence set
-        self.0.0.sort_by_key(|seq| match seq {
-            Sequence::Single(a) => a.to_non_zero_u32(),
-            Sequence::Range(a, _) => a.to_non_zero_u32(),
-        });
-
         self
     }
 }
-- 
2.43.0


From a4d0fa3e185fecee883a26d5b61837784aaebbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:31 +0000
Subject: [PATCH 10/13] fix: Decode REFERRAL response code

Code::Referral was encoded but decoded as Code::Other.
---
 imap-codec/src/response.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/imap-codec/src/response.rs b/imap-codec/src/response.rs
index 0dd5e8a..a73ad25 100644
--- a/imap-codec/src/response.rs
+++ b/imap-codec/src/response.rs
@@ -1,3 +1,6 @@
+#[cfg(any(feature = "ext_mailbox_referrals", feature = "ext_login_referrals"))]
+use std::{borrow::Cow, str::from_utf8};
+
 #[cfg(not(feature = "quirk_crlf_relaxed"))]
 use abnf_core::streaming::crlf;
 #[cfg(feature = "quirk_crlf_relaxed")]
@@ -12,6 +15,10 @@ use imap_types::{
         Response, Status, StatusBody, StatusKind, Tagged,
     },
 };
+#[cfg(any(feature = "ext_mailbox_referrals", feature = "ext_login_referrals"))]
+use imap_types::utils::indicators::is_text_char;
+#[cfg(any(feature = "ext_mailbox_referrals", feature = "ext_login_referrals"))]
+use nom::bytes::streaming::take_while1;
 #[cfg(feature = "quirk_missing_text")]
 use nom::combinator::peek;
 use nom::{
@@ -141,6 +148,7 @@ pub(crate) fn resp_text(input: &[u8]) -> IMAPResult<&[u8], (Option<Code>, Text)>
 ///                    "NOPRIVATE"
 ///                  ) /
 ///                  "UNKNOWN-CTE" /       ; RFC 3516
+///                  "REFERRAL" SP <url>   / ; RFC 2221 (and RFC 2193)
 ///                  "HIGHESTMODSEQ" SP mod-sequence-value / ; RFC7162
 ///                  "NOMODSEQ"                            / ; RFC7162
 ///                  "MODIFIED" SP sequence-set            / ; RFC7162
@@ -201,6 +209,14 @@ pub(crate) fn resp_text_code(input: &[u8]) -> IMAPResult<&[u8], Code> {
         resp_code_apnd,
         resp_code_copy,
         value(Code::UidNotSticky, tag_no_case(b"UIDNOTSTICKY")),
+        #[cfg(any(feature = "ext_mailbox_referrals", feature = "ext_login_referrals"))]
+        map(
+            preceded(
+                tag_no_case(b"REFERRAL "),
+                map_res(take_while1(|b| is_text_char(b) && b != b']'), from_utf8),
+            ),
+            |url| Code::Referral(Cow::Borrowed(url)),
+        ),
         #[cfg(feature = "ext_condstore_qresync")]
         alt((
             map(
-- 
2.43.0


From 45207596858118e7b64d99213e76f57dde1b63f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:19 +0000
Subject: [PATCH 11/13] fix: Reject known names in fallback types on
 deserialization

The fallback types (e.g., CapabilityOther) guarantee that they can't represent
any name with a dedicated variant, but deserialization constructed them directly.
---
 imap-types/src/auth.rs                        |  6 +++++
 imap-types/src/core.rs                        | 23 +++++++++++++++++++
 .../src/extensions/condstore_qresync.rs       |  6 +++++
 imap-types/src/extensions/enable.rs           |  6 +++++
 imap-types/src/extensions/quota.rs            |  6 +++++
 imap-types/src/extensions/sort.rs             |  6 +++++
 imap-types/src/extensions/thread.rs           |  6 +++++
 imap-types/src/flag.rs                        | 15 ++++++++++++
 imap-types/src/response.rs                    |  6 +++++
 9 files changed, 80 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 1847b95..2a631ed 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -12,6 +12,8 @@ use bounded_static_derive::ToStatic;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 use crate::{
     core::{Atom, impl_try_from},
     error::ValidationError,
@@ -200,9 +202,13 @@ impl FromStr for AuthMechanism<'static> {
 ///
 /// It's guaranteed that this type can't represent any mechanism from [`AuthMechanism`].
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct AuthMechanismOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(AuthMechanismOther, AuthMechanism, from, Other);
+
 /// Data line used, e.g., during AUTHENTICATE.
 ///
 /// Holds the raw binary data, i.e., a `Vec<u8>`, *not* the BASE64 string.
diff --git a/imap-types/src/core.rs b/imap-types/src/core.rs
index 0780dbe..325a3af 100644
--- a/imap-types/src/core.rs
+++ b/imap-types/src/core.rs
@@ -77,6 +77,29 @@ macro_rules! impl_try_from {
 
 pub(crate) use impl_try_from;
 
+/// Implement `TryFrom<Atom>` for a fallback type so that deserialization can't be used to smuggle
+/// in a name that has a dedicated variant.
+#[cfg(feature = "serde")]
+macro_rules! impl_try_from_atom_for_other {
+    ($other:ident, $target:ident, $from:ident, $fallback:ident) => {
+        impl<'a> TryFrom<Atom<'a>> for $other<'a> {
+            type Error = crate::error::ValidationError;
+
+            fn try_from(value: Atom<'a>) -> Result<Self, Self::Error> {
+                match $target::$from(value) {
+                    $target::$fallback(other) => Ok(other),
+                    _ => Err(crate::error::ValidationError::new(
+                        crate::error::ValidationErrorKind::Invalid,
+                    )),
+                }
+            }
+        }
+    };
+}
+
+#[cfg(feature = "serde")]
+pub(crate) use impl_try_from_atom_for_other;
+
 use crate::{
     error::{ValidationError, ValidationErrorKind},
     extensions::binary::Literal8,
diff --git a/imap-types/src/extensions/condstore_qresync.rs b/imap-types/src/extensions/condstore_qresync.rs
index 5b963e9..9922018 100644
--- a/imap-types/src/extensions/condstore_qresync.rs
+++ b/imap-types/src/extensions/condstore_qresync.rs
@@ -6,6 +6,8 @@ use bounded_static_derive::ToStatic;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 use crate::{core::Atom, error::ValidationError};
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -38,9 +40,13 @@ impl<'a> AttributeFlag<'a> {
     }
 }
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct AttributeFlagExtension<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(AttributeFlagExtension, AttributeFlag, system, Extension);
+
 impl<'a> TryFrom<&'a str> for AttributeFlag<'a> {
     type Error = ValidationError;
 
diff --git a/imap-types/src/extensions/enable.rs b/imap-types/src/extensions/enable.rs
index b3321b0..6083e5c 100644
--- a/imap-types/src/extensions/enable.rs
+++ b/imap-types/src/extensions/enable.rs
@@ -12,6 +12,8 @@ use bounded_static_derive::ToStatic;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 #[cfg(feature = "ext_utf8")]
 use crate::extensions::utf8::Utf8Kind;
 use crate::{
@@ -99,9 +101,13 @@ impl Display for CapabilityEnable<'_> {
 ///
 /// It's guaranteed that this type can't represent any capability from [`CapabilityEnable`].
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct CapabilityEnableOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(CapabilityEnableOther, CapabilityEnable, from, Other);
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/imap-types/src/extensions/quota.rs b/imap-types/src/extensions/quota.rs
index 6fd962b..dea2ad4 100644
--- a/imap-types/src/extensions/quota.rs
+++ b/imap-types/src/extensions/quota.rs
@@ -44,6 +44,8 @@ use bounded_static_derive::ToStatic;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 use crate::{
     command::CommandBody,
     core::{AString, Atom, Vec1, impl_try_from},
@@ -185,9 +187,13 @@ pub enum Resource<'a> {
 ///
 /// It's guaranteed that this type can't represent any resource from [`Resource`].
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct ResourceOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(ResourceOther, Resource, from, Other);
+
 impl_try_from!(Atom<'a>, 'a, &'a [u8], Resource<'a>);
 impl_try_from!(Atom<'a>, 'a, Vec<u8>, Resource<'a>);
 impl_try_from!(Atom<'a>, 'a, &'a str, Resource<'a>);
diff --git a/imap-types/src/extensions/sort.rs b/imap-types/src/extensions/sort.rs
index 08cf155..51a9e86 100644
--- a/imap-types/src/extensions/sort.rs
+++ b/imap-types/src/extensions/sort.rs
@@ -9,6 +9,8 @@ use serde::{Deserialize, Serialize};
 #[cfg(feature = "arbitrary")]
 use crate::arbitrary::impl_arbitrary_try_from;
 use crate::core::Atom;
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "serde", serde(tag = "type", content = "content"))]
@@ -40,9 +42,13 @@ impl Display for SortAlgorithm<'_> {
 impl_arbitrary_try_from! { SortAlgorithm<'a>, Atom<'a> }
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct SortAlgorithmOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(SortAlgorithmOther, SortAlgorithm, from, Other);
+
 impl AsRef<str> for SortAlgorithmOther<'_> {
     fn as_ref(&self) -> &str {
         self.0.as_ref()
diff --git a/imap-types/src/extensions/thread.rs b/imap-types/src/extensions/thread.rs
index af54d23..197e6a5 100644
--- a/imap-types/src/extensions/thread.rs
+++ b/imap-types/src/extensions/thread.rs
@@ -11,6 +11,8 @@ use serde::{Deserialize, Serialize};
 
 #[cfg(feature = "arbitrary")]
 use crate::arbitrary::impl_arbitrary_try_from;
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 use crate::core::{Atom, Vec1, Vec2};
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
@@ -169,9 +171,13 @@ impl Display for ThreadingAlgorithm<'_> {
 impl_arbitrary_try_from! { ThreadingAlgorithm<'a>, Atom<'a> }
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct ThreadingAlgorithmOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(ThreadingAlgorithmOther, ThreadingAlgorithm, from, Other);
+
 impl AsRef<str> for ThreadingAlgorithmOther<'_> {
     fn as_ref(&self) -> &str {
         self.0.as_ref()
diff --git a/imap-types/src/flag.rs b/imap-types/src/flag.rs
index fcf7b18..0c55da4 100644
--- a/imap-types/src/flag.rs
+++ b/imap-types/src/flag.rs
@@ -8,6 +8,8 @@ use bounded_static_derive::ToStatic;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 use crate::{core::Atom, error::ValidationError};
 
 /// There are two types of flags in IMAP4rev1: System and keyword flags.
@@ -46,9 +48,13 @@ pub enum Flag<'a> {
 ///
 /// It's guaranteed that this type can't represent any flag from [`Flag`].
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct FlagExtension<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(FlagExtension, Flag, system, Extension);
+
 impl<'a> Flag<'a> {
     pub fn system(atom: Atom<'a>) -> Self {
         match atom.as_ref().to_ascii_lowercase().as_ref() {
@@ -166,9 +172,18 @@ impl<'a> From<FlagNameAttributeExtension<'a>> for FlagNameAttribute<'a> {
 
 /// An extension flag.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct FlagNameAttributeExtension<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(
+    FlagNameAttributeExtension,
+    FlagNameAttribute,
+    from,
+    Extension
+);
+
 impl FlagNameAttribute<'_> {
     pub fn is_selectability(&self) -> bool {
         matches!(
diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index dd82d53..cef3776 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -15,6 +15,8 @@ use bounded_static_derive::ToStatic;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+#[cfg(feature = "serde")]
+use crate::core::impl_try_from_atom_for_other;
 #[cfg(feature = "ext_id")]
 use crate::core::{IString, NString};
 #[cfg(feature = "ext_metadata")]
@@ -1288,9 +1290,13 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
 ///
 /// It's guaranteed that this type can't represent any capability from [`Capability`].
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "Atom<'a>"))]
 #[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
 pub struct CapabilityOther<'a>(Atom<'a>);
 
+#[cfg(feature = "serde")]
+impl_try_from_atom_for_other!(CapabilityOther, Capability, from, Other);
+
 /// Error-related types.
 pub mod error {
     use thiserror::Error;
-- 
2.43.0


From 418f6f195f0bf5e860c4e707d5490eac5bf1d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 12/13] fix: Don't generate QuotedUtf8 with CR or LF

Arbitrary for QuotedUtf8 accepted every string, also those that can't be sent as a quoted string.
---
 imap-types/src/arbitrary.rs       | 14 ++++++++++++++
 imap-types/src/extensions/utf8.rs |  1 -
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/imap-types/src/arbitrary.rs b/imap-types/src/arbitrary.rs
index ca59a0b..34475a6 100644
--- a/imap-types/src/arbitrary.rs
+++ b/imap-types/src/arbitrary.rs
@@ -197,6 +197,20 @@ impl<'a> Arbitrary<'a> for IString<'a> {
     }
 }
 
+#[cfg(feature = "ext_utf8")]
+impl<'a> Arbitrary<'a> for QuotedUtf8<'a> {
+    fn arbitrary(u: &mut Unstructured<'a>) -> arbitrary::Result<Self> {
+        let inner = <&str>::arbitrary(u)?;
+
+        // CR and LF can't be part of a quoted string.
+        if inner.contains(['\r', '\n']) {
+            return Err(arbitrary::Error::IncorrectFormat);
+        }
+
+        Ok(Self(inner.into()))
+    }
+}
+
 impl<'a> Arbitrary<'a> for Literal<'a> {
     fn arbitrary(u: &mut Unstructured<'a>) -> arbitrary::Result<Self> {
         match Literal::try_from(<&[u8]>::arbitrary(u)?) {
diff --git a/imap-types/src/extensions/utf8.rs b/imap-types/src/extensions/utf8.rs
index 0c4480c..c59661c 100644
--- a/imap-types/src/extensions/utf8.rs
+++ b/imap-types/src/extensions/utf8.rs
@@ -29,7 +29,6 @@ impl Display for Utf8Kind {
 }
 
 /// A quoted UTF-8 string.
-#[cfg_attr(feature = "arbitrary", derive(Arbitrary))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[cfg_attr(feature = "serde", serde(try_from = "String"))]
 #[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
-- 
2.43.0


From 5aa6ce280c06908908ff9b7dbff0de34e8044a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 13/13] fix: Don't generate referrals that can't be sent

Arbitrary for Code generated Code::Referral with the empty string, with "]", CR, LF, ...
---
 imap-types/src/arbitrary.rs | 15 +++++++++++++++
 imap-types/src/response.rs  |  8 +++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/imap-types/src/arbitrary.rs b/imap-types/src/arbitrary.rs
index 34475a6..3f1bfbf 100644
--- a/imap-types/src/arbitrary.rs
+++ b/imap-types/src/arbitrary.rs
@@ -1,3 +1,6 @@
+#[cfg(any(feature = "ext_mailbox_referrals", feature = "ext_login_referrals"))]
+use std::borrow::Cow;
+
 use arbitrary::{Arbitrary, Unstructured};
 use chrono::{FixedOffset, TimeZone};
 
@@ -230,6 +233,18 @@ impl<'a> Arbitrary<'a> for CodeOther<'a> {
     }
 }
 
+#[cfg(any(feature = "ext_mailbox_referrals", feature = "ext_login_referrals"))]
+pub(crate) fn arbitrary_referral<'a>(u: &mut Unstructured<'a>) -> arbitrary::Result<Cow<'a, str>> {
+    let url = Text::arbitrary(u)?.into_inner();
+
+    // "]" ends the response code.
+    if url.contains(']') {
+        return Err(arbitrary::Error::IncorrectFormat);
+    }
+
+    Ok(url)
+}
+
 impl<'a> Arbitrary<'a> for SearchKey<'a> {
     fn arbitrary(u: &mut Unstructured<'a>) -> arbitrary::Result<Self> {
         #[cfg(not(feature = "arbitrary_simplified"))]
diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index cef3776..a3fcc60 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -879,7 +879,13 @@ pub enum Code<'a> {
         docsrs,
         doc(cfg(any(feature = "ext_mailbox_referrals", feature = "ext_login_referrals")))
     )]
-    Referral(Cow<'a, str>),
+    Referral(
+        #[cfg_attr(
+            feature = "arbitrary",
+            arbitrary(with = crate::arbitrary::arbitrary_referral)
+        )]
+        Cow<'a, str>,
+    ),
 
     CompressionActive,
 
-- 
2.43.0

