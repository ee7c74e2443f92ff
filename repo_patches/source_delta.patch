From e04f6ad0ee340b627f930de7dd373e00949ce467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:49 +0000
Subject: [PATCH 1/6] fix: accept an empty BER-TLV value with a long-form
 length at the end of a block

---
 src/emv/tlv_parsing/ber_tlv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..cf31d1e 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From d2020335b022bfe65e662e7899b9b676c9335b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:47 +0000
Subject: [PATCH 2/6] fix: bound the nesting depth so deeply nested TLV data
 doesn't crash

---
 src/emv/tlv_parsing/ber_tlv.rs      | 33 ++++++++++++++++++++++++++---
 src/emv/tlv_parsing/ingenico_tlv.rs |  2 +-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index cf31d1e..322fecc 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -9,8 +9,26 @@ use crate::{
 	util::{byte_slice_to_u32, BYTES_PER_32_BITS},
 };
 
+// Constants
+/// The maximum number of constructed data objects that an object can be nested
+/// within. Anything nested deeper is left as raw data.
+///
+/// This keeps the recursion bounded, and it leaves room in the [`u8`] used for
+/// indentation for the (at most) 2 levels used inside of an object's breakdown.
+const MAX_NESTING_DEPTH: u8 = u8::MAX - 2;
+
 /// Parses a block of BER-TLV encoded data.
 pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, ParseError> {
+	parse_nested(bytes, masking_characters, 0)
+}
+
+/// Does the same thing as [`parse`], for a block nested within `depth`
+/// constructed data objects.
+fn parse_nested(
+	bytes: &[u8],
+	masking_characters: &[char],
+	depth: u8,
+) -> Result<RawEmvBlock, ParseError> {
 	let bytes_len = bytes.len();
 	let mut nodes = Vec::new();
 	let mut index = 0;
@@ -68,7 +86,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 		// Push the resulting tag to the list
 		let tag_data = EmvData::from_u8_check_for_masked(data.to_vec(), masking_characters);
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, depth),
 			tag:         RawEmvTag {
 				tag: bytes[tag_start_index..=tag_end_index].to_vec(),
 				class,
@@ -101,18 +119,27 @@ pub fn parse_tag_metadata(tag_byte_0: u8) -> (TagClass, DataObjectType) {
 }
 
 /// Descends into the tag data to try to parse it as a constructed data object,
-/// if `data_object_type` is [`DataObjectType::Constructed`].
+/// if `data_object_type` is [`DataObjectType::Constructed`] and the tag isn't
+/// nested too deeply already. (`depth` is the number of constructed data objects
+/// the tag is nested within)
 ///
 /// Otherwise, it returns [`RawEmvBlock::default`].
 pub fn get_child_block(
 	data_object_type: DataObjectType,
 	tag_data: &EmvData,
 	masking_characters: &[char],
+	depth: u8,
 ) -> RawEmvBlock {
+	if depth >= MAX_NESTING_DEPTH {
+		return RawEmvBlock::default();
+	}
+
 	match data_object_type {
 		DataObjectType::Primitive => RawEmvBlock::default(),
 		DataObjectType::Constructed => match tag_data {
-			EmvData::Normal(data) => parse(data, masking_characters).unwrap_or_default(),
+			EmvData::Normal(data) => {
+				parse_nested(data, masking_characters, depth + 1).unwrap_or_default()
+			}
 			EmvData::Masked => RawEmvBlock::default(),
 		},
 	}
diff --git a/src/emv/tlv_parsing/ingenico_tlv.rs b/src/emv/tlv_parsing/ingenico_tlv.rs
index 948c4e8..e41e2f1 100644
--- a/src/emv/tlv_parsing/ingenico_tlv.rs
+++ b/src/emv/tlv_parsing/ingenico_tlv.rs
@@ -125,7 +125,7 @@ pub fn parse(data: &str, masking_characters: &[char]) -> Result<RawEmvBlock, Par
 			continue;
 		}
 		nodes.push(RawEmvNode {
-			child_block: get_child_block(data_object_type, &tag_data, masking_characters),
+			child_block: get_child_block(data_object_type, &tag_data, masking_characters, 0),
 			tag:         RawEmvTag {
 				tag: tag_id_bytes,
 				class,
-- 
2.43.0


From fb28d7f1af710099bcddeab8e02d2045caab915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 3/6] fix: show the bits of unknown CVM methods and conditions
 instead of zeroes

---
 src/emv/cv_rule/cv_method.rs     | 18 +++++++++++++++---
 src/emv/cv_rule/cvm_condition.rs | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/emv/cv_rule/cv_method.rs b/src/emv/cv_rule/cv_method.rs
index 9c266a5..b18ddb6 100644
--- a/src/emv/cv_rule/cv_method.rs
+++ b/src/emv/cv_rule/cv_method.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -26,15 +28,24 @@ pub enum CvMethod: u8, ParseError, { |_| ParseError::NonCompliant } {
 }
 
 /// A somewhat dumb workaround to have custom impls on [`Option<CvMethod>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvMethod {
 	pub internal: Option<CvMethod>,
+	/// The code as it was provided, since it can't be recovered from `internal`
+	/// if it's unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	code:         u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvMethod>> for OptionalCvMethod {
 	fn from(value: Option<CvMethod>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			code:     value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -50,6 +61,7 @@ impl From<u8> for OptionalCvMethod {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvMethod::try_from(value).ok(),
+			code:     value,
 		}
 	}
 }
@@ -57,7 +69,7 @@ impl From<u8> for OptionalCvMethod {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvMethod> for u8 {
 	fn from(value: OptionalCvMethod) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.code
 	}
 }
 
diff --git a/src/emv/cv_rule/cvm_condition.rs b/src/emv/cv_rule/cvm_condition.rs
index 27db84d..378f945 100644
--- a/src/emv/cv_rule/cvm_condition.rs
+++ b/src/emv/cv_rule/cvm_condition.rs
@@ -5,6 +5,8 @@
 // Uses
 use std::fmt::{Debug, Display, Formatter, Result as FmtResult};
 
+use derivative::Derivative;
+
 use crate::{enum_repr_fallible, error::ParseError};
 
 enum_repr_fallible! {
@@ -45,15 +47,24 @@ impl CvmCondition {
 
 /// A somewhat dumb workaround to have a [`Display`] impl on
 /// [`Option<CvmCondition>`].
-#[derive(Copy, Clone, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Eq, Derivative)]
+#[derivative(PartialEq, Hash)]
 pub struct OptionalCvmCondition {
 	pub internal: Option<CvmCondition>,
+	/// The code as it was provided, since it can't be recovered from `internal`
+	/// if it's unknown.
+	#[derivative(PartialEq = "ignore")]
+	#[derivative(Hash = "ignore")]
+	code:         u8,
 }
 
 #[cfg(not(tarpaulin_include))]
 impl From<Option<CvmCondition>> for OptionalCvmCondition {
 	fn from(value: Option<CvmCondition>) -> Self {
-		Self { internal: value }
+		Self {
+			internal: value,
+			code:     value.map_or(0, Into::into),
+		}
 	}
 }
 
@@ -69,6 +80,7 @@ impl From<u8> for OptionalCvmCondition {
 	fn from(value: u8) -> Self {
 		Self {
 			internal: CvmCondition::try_from(value).ok(),
+			code:     value,
 		}
 	}
 }
@@ -76,7 +88,7 @@ impl From<u8> for OptionalCvmCondition {
 #[cfg(not(tarpaulin_include))]
 impl From<OptionalCvmCondition> for u8 {
 	fn from(value: OptionalCvmCondition) -> Self {
-		value.internal.map_or(0, Into::into)
+		value.code
 	}
 }
 
-- 
2.43.0


From f255401d84b538a7418ca40d8d2314bba9ebd10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 4/6] fix: report invalid configuration values instead of
 panicking

---
 src/main.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 9166379..5a84f09 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,6 +51,7 @@ mod util;
 // Uses
 use std::fmt::Debug;
 
+use figment::{Error as FigmentError, Figment};
 use termcolor::{StandardStream, WriteColor};
 
 use crate::{
@@ -106,19 +107,16 @@ fn main() {
 
 	let config_figment = apply_cli_arguments(Config::figment(), &matches);
 
-	let colour_choice = config_figment
-		.extract_inner::<ColourChoice>(Config::CLI_COLOUR)
-		.unwrap()
-		.change_based_on_tty()
-		.into();
-	let masking_characters = config_figment
-		.extract_inner::<Vec<char>>(Config::MASKING_CHARACTERS)
-		.unwrap();
-	let sort_parsed_tags = config_figment
-		.extract_inner::<bool>(Config::SORT_PARSED_TAGS)
-		.unwrap();
+	let (colour_choice, masking_characters, sort_parsed_tags) =
+		match extract_settings(&config_figment) {
+			Ok(settings) => settings,
+			Err(error) => {
+				eprintln!("The configuration is not valid: {error}");
+				return;
+			}
+		};
 
-	let mut stdout = StandardStream::stdout(colour_choice);
+	let mut stdout = StandardStream::stdout(colour_choice.change_based_on_tty().into());
 
 	let parse_error = {
 		// EMV Tags
@@ -218,6 +216,18 @@ fn main() {
 	}
 }
 
+/// Extracts the value of each setting from the configuration.
+#[cfg(not(tarpaulin_include))]
+fn extract_settings(
+	config_figment: &Figment,
+) -> Result<(ColourChoice, Vec<char>, bool), FigmentError> {
+	Ok((
+		config_figment.extract_inner(Config::CLI_COLOUR)?,
+		config_figment.extract_inner(Config::MASKING_CHARACTERS)?,
+		config_figment.extract_inner(Config::SORT_PARSED_TAGS)?,
+	))
+}
+
 // Unit Tests
 /// This is because Tarpaulin currently recognises every enum variant line
 /// as uncovered because the [`Display`] impl was never called in testing.
-- 
2.43.0


From 1a88dca3e321176f9e770d6222e245fe147765bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 5/6] fix: reject Ingenico tags and lengths with an odd number
 of hex digits

---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 6cc12df..c06a0ee 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -34,9 +34,11 @@ pub fn parse_hex_str(hex_asm: &str) -> Vec<u8> {
 	bytes
 }
 /// Does the exact same thing as [`parse_hex_str`], but it throws an error if
-/// there are any non-hex ASCII characters in the string.
+/// there are any non-hex ASCII characters in the string, or if the digits don't
+/// form whole bytes.
 pub fn parse_hex_str_strict(hex_asm: &str) -> Result<Vec<u8>, ParseError> {
 	if !hex_asm.is_ascii()
+		|| hex_asm.len() % 2 != 0
 		|| hex_asm.contains(|c| !matches!(c as u8, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))
 	{
 		Err(ParseError::InvalidBytes)
-- 
2.43.0


From 9d828477be3db9ab993dcb6fe7f3d8fb3acb4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 6/6] fix: don't report input without any hex bytes as BER-TLV
 in the automatic TLV option

---
 src/emv/tlv_parsing/auto_tlv.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/emv/tlv_parsing/auto_tlv.rs b/src/emv/tlv_parsing/auto_tlv.rs
index 814f174..a2d0643 100644
--- a/src/emv/tlv_parsing/auto_tlv.rs
+++ b/src/emv/tlv_parsing/auto_tlv.rs
@@ -27,14 +27,16 @@ pub fn parse(
 		Ok((TlvFormat::Ingenico, raw_emv_block))
 	}
 	// BER-TLV
-	else if let Ok(raw_emv_block) =
-		parse_ber_tlv(parse_hex_str(tlv_str).as_slice(), masking_characters)
-	{
-		Ok((TlvFormat::BerTlv, raw_emv_block))
-	}
-	// Error
 	else {
-		Err(ParseError::Unrecognised)
+		// Similarly, an absence of any bytes is trivially valid BER-TLV
+		let bytes = parse_hex_str(tlv_str);
+		if bytes.is_empty() {
+			return Err(ParseError::Unrecognised);
+		}
+
+		parse_ber_tlv(bytes.as_slice(), masking_characters)
+			.map(|raw_emv_block| (TlvFormat::BerTlv, raw_emv_block))
+			.map_err(|_| ParseError::Unrecognised)
 	}
 }
 
-- 
2.43.0

