//! TLV encoders and reference parsers, written from BER-TLV (EMV Book 3, Annex
//! B) and the Ingenico record format, not from the code under test.

use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Nesting that breakdowns are required to follow.
pub const MAX_DEPTH: usize = 250;

/// Bytes that are written as hex in replay files.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Hex(pub Vec<u8>);
impl std::fmt::Debug for Hex {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(&hex(&self.0))
	}
}
impl Serialize for Hex {
	fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&hex(&self.0))
	}
}
impl<'de> Deserialize<'de> for Hex {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = String::deserialize(d)?;
		Ok(Self(unhex(&s)))
	}
}
impl std::ops::Deref for Hex {
	type Target = Vec<u8>;

	fn deref(&self) -> &Vec<u8> {
		&self.0
	}
}
impl From<Vec<u8>> for Hex {
	fn from(v: Vec<u8>) -> Self {
		Self(v)
	}
}
impl From<&[u8]> for Hex {
	fn from(v: &[u8]) -> Self {
		Self(v.to_vec())
	}
}

pub fn hex(bytes: &[u8]) -> String {
	const DIGITS: &[u8; 16] = b"0123456789ABCDEF";
	let mut s = String::with_capacity(bytes.len() * 2);
	for b in bytes {
		s.push(DIGITS[usize::from(b >> 4)] as char);
		s.push(DIGITS[usize::from(b & 15)] as char);
	}
	s
}
/// The bytes formed by the hex digits in the text, taken in pairs.
pub fn unhex(s: &str) -> Vec<u8> {
	let digits: Vec<u8> = s
		.chars()
		.filter(char::is_ascii_hexdigit)
		.map(|c| c.to_digit(16).unwrap() as u8)
		.collect();
	digits.chunks_exact(2).map(|p| p[0] * 16 + p[1]).collect()
}

// Encoding

/// A BER-TLV data object to be encoded.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Obj {
	pub tag:  Hex,
	/// 0: the shortest legal length form, 1-4: at least that many length bytes in
	/// long form.
	pub form: u8,
	pub body: Body,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Body {
	Bytes(Hex),
	Kids(Vec<Obj>),
}

pub fn encode_length(len: usize, form: u8, out: &mut Vec<u8>) {
	let needed = match len {
		0..=0xFF => 1,
		0x100..=0xFFFF => 2,
		0x1_0000..=0xFF_FFFF => 3,
		_ => 4,
	};
	if form == 0 && len < 0x80 {
		out.push(len as u8);
	} else {
		let n = usize::from(form).clamp(needed, 4);
		out.push(0x80 | n as u8);
		out.extend(&(len as u32).to_be_bytes()[4 - n..]);
	}
}
impl Obj {
	pub fn bytes(tag: &[u8], value: &[u8]) -> Self {
		Self {
			tag:  tag.into(),
			form: 0,
			body: Body::Bytes(value.into()),
		}
	}

	pub fn value(&self) -> Vec<u8> {
		match &self.body {
			Body::Bytes(b) => b.0.clone(),
			Body::Kids(kids) => encode_block(kids),
		}
	}

	pub fn encode(&self, out: &mut Vec<u8>) {
		let value = self.value();
		out.extend(&self.tag.0);
		encode_length(value.len(), self.form, out);
		out.extend(value);
	}
}
pub fn encode_block(objs: &[Obj]) -> Vec<u8> {
	let mut out = Vec::new();
	for o in objs {
		o.encode(&mut out);
	}
	out
}

// Reference parsing

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
	pub tag:    Vec<u8>,
	pub masked: bool,
	pub value:  Vec<u8>,
	pub kids:   Vec<Node>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
	NonCompliant,
	Unsupported,
	/// Rejected, as either of the two.
	Either,
	/// The properties don't say what happens.
	Undetermined,
}

pub fn is_constructed(tag: &[u8]) -> bool {
	tag.first().is_some_and(|b| b & 0x20 != 0)
}

/// Whether a BER-TLV value is wholly masked. `None`: the properties don't say
/// (bytes outside ASCII against masking characters outside ASCII).
fn masked_bytes(value: &[u8], masks: &[char]) -> Option<bool> {
	if value.len() < 2 || value.iter().any(|b| *b != value[0]) {
		return Some(false);
	}
	if !value[0].is_ascii() {
		return if masks.iter().any(|m| !m.is_ascii()) {
			None
		} else {
			Some(false)
		};
	}
	Some(masks.contains(&char::from(value[0])))
}
fn masked_text(value: &str, masks: &[char]) -> bool {
	let mut chars = value.chars();
	match chars.next() {
		Some(first) if value.chars().count() >= 2 => {
			masks.contains(&first) && chars.all(|c| c == first)
		}
		_ => false,
	}
}

/// Parses a BER-TLV block. Children that can't be parsed are left out, as are
/// those whose parsing isn't determined by the properties, in which case the
/// flag is set.
pub fn parse_ber(bytes: &[u8], masks: &[char]) -> Result<Vec<Node>, Bad> {
	ber(bytes, masks, 0)
}
fn ber(bytes: &[u8], masks: &[char], depth: usize) -> Result<Vec<Node>, Bad> {
	let mut nodes = Vec::new();
	let mut rest = bytes;
	while !rest.is_empty() {
		// Tag
		let mut tag_len = 1;
		if rest[0] & 0x1F == 0x1F {
			loop {
				let Some(b) = rest.get(tag_len) else {
					return Err(Bad::NonCompliant);
				};
				tag_len += 1;
				if b & 0x80 == 0 {
					break;
				}
			}
		}
		let (tag, after) = rest.split_at(tag_len);
		// Length
		let Some((&first, after)) = after.split_first() else {
			return Err(Bad::NonCompliant);
		};
		let (length, after) = if first < 0x80 {
			(usize::from(first), after)
		} else if first == 0x80 {
			// The indefinite form isn't used in EMV
			return Err(Bad::Undetermined);
		} else {
			let n = usize::from(first & 0x7F);
			if n > 4 {
				return Err(if n > after.len() {
					Bad::Either
				} else {
					Bad::Unsupported
				});
			}
			if n > after.len() {
				return Err(Bad::NonCompliant);
			}
			let (digits, after) = after.split_at(n);
			(
				digits.iter().fold(0usize, |a, d| a << 8 | usize::from(*d)),
				after,
			)
		};
		// Value
		if length > after.len() {
			return Err(Bad::NonCompliant);
		}
		let (value, after) = after.split_at(length);
		nodes.push(make_node(tag, value, masked_bytes(value, masks), masks, depth)?);
		rest = after;
	}
	Ok(nodes)
}
fn make_node(
	tag: &[u8],
	value: &[u8],
	masked: Option<bool>,
	masks: &[char],
	depth: usize,
) -> Result<Node, Bad> {
	let masked = masked.ok_or(Bad::Undetermined)?;
	let kids = if masked || !is_constructed(tag) {
		Vec::new()
	} else {
		match ber(value, masks, depth + 1) {
			Ok(kids) if depth >= MAX_DEPTH && !kids.is_empty() => return Err(Bad::Undetermined),
			Ok(kids) => kids,
			Err(Bad::Undetermined) => return Err(Bad::Undetermined),
			Err(_) => Vec::new(),
		}
	};
	Ok(Node {
		tag: tag.to_vec(),
		masked,
		value: value.to_vec(),
		kids,
	})
}

/// Parses an Ingenico block: records of the form
/// `<type><tag in hex>:<length in hex>:<a or h><value>`, joined by any one
/// character.
pub fn parse_ingenico(text: &str, masks: &[char]) -> Result<Vec<Node>, Bad> {
	if !text.is_ascii() {
		return Err(Bad::NonCompliant);
	}
	let mut nodes = Vec::new();
	let mut rest = text;
	while !rest.is_empty() {
		let (kind, after) = rest.split_at(1);
		let (tag_text, after) = after.split_once(':').ok_or(Bad::NonCompliant)?;
		let whole_hex =
			|s: &str| s.bytes().all(|b| b.is_ascii_hexdigit()) && s.len() % 2 == 0;
		if tag_text.is_empty() || !whole_hex(tag_text) {
			return Err(Bad::NonCompliant);
		}
		let (length_text, after) = after.split_once(':').ok_or(Bad::NonCompliant)?;
		if !whole_hex(length_text) {
			return Err(Bad::NonCompliant);
		}
		if length_text.is_empty() {
			// Whether an empty length is a missing field or zero isn't determined
			return Err(Bad::Undetermined);
		}
		let length_bytes = unhex(length_text);
		if length_bytes.len() > 4 {
			return Err(if after.is_empty() {
				Bad::Either
			} else {
				Bad::Unsupported
			});
		}
		let length = length_bytes
			.iter()
			.fold(0usize, |a, d| a << 8 | usize::from(*d));
		let mut tag = unhex(tag_text);
		while tag.len() > 1 && tag[0] == 0 {
			tag.remove(0);
		}
		let format = after.chars().next().ok_or(Bad::NonCompliant)?;
		let after = &after[1..];
		let chars = match format {
			'a' => length,
			'h' => length * 2,
			_ => return Err(Bad::NonCompliant),
		};
		if chars > after.len() {
			return Err(Bad::NonCompliant);
		}
		let (value_text, after) = after.split_at(chars);
		let masked = masked_text(value_text, masks);
		let value = if masked {
			Vec::new()
		} else if format == 'a' {
			value_text.as_bytes().to_vec()
		} else if whole_hex(value_text) {
			unhex(value_text)
		} else {
			return Err(Bad::NonCompliant);
		};
		if kind == "T" {
			nodes.push(make_node(&tag, &value, Some(masked), masks, 0)?);
		}
		rest = after.get(1..).unwrap_or("");
	}
	Ok(nodes)
}

/// An Ingenico record to be encoded.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Rec {
	pub kind:       char,
	/// As written, with leading zero bytes if any.
	pub tag:        Hex,
	/// The number of length bytes written, at least.
	pub len_bytes:  u8,
	pub ascii:      bool,
	pub value:      Hex,
	/// Which hex digits are in lower case (bit per digit, repeating).
	pub lower_case: u8,
	/// What follows the record.
	pub separator:  char,
}
pub fn recase(text: &str, lower_case: u8) -> String {
	text.chars()
		.enumerate()
		.map(|(i, c)| {
			if lower_case >> (i % 8) & 1 == 1 {
				c.to_ascii_lowercase()
			} else {
				c.to_ascii_uppercase()
			}
		})
		.collect()
}
impl Rec {
	pub fn write(&self, out: &mut String) {
		let len = (self.value.len() as u32).to_be_bytes();
		let needed = 4 - len.iter().take(3).take_while(|b| **b == 0).count();
		let n = usize::from(self.len_bytes).clamp(needed, 4);
		out.push(self.kind);
		out.push_str(&recase(&hex(&self.tag), self.lower_case));
		out.push(':');
		out.push_str(&recase(&hex(&len[4 - n..]), self.lower_case));
		out.push(':');
		if self.ascii {
			out.push('a');
			out.push_str(&String::from_utf8_lossy(&self.value));
		} else {
			out.push('h');
			out.push_str(&recase(&hex(&self.value), self.lower_case));
		}
	}
}
pub fn encode_ingenico(recs: &[Rec], last_separator: bool) -> String {
	let mut out = String::new();
	for (i, r) in recs.iter().enumerate() {
		r.write(&mut out);
		if i + 1 < recs.len() || last_separator {
			out.push(r.separator);
		}
	}
	out
}
