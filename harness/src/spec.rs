//! What EMV (Book 3, annexes A and C; Book 4, annex A), ISO 8583:1987 and
//! ISO/IEC 7813 assign to each bit, code, tag and digit, and how a breakdown
//! lays it out.

use crate::wire::hex;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Severity {
	Normal,
	Warning,
	Error,
}
use Severity::{Error, Normal, Warning};

#[derive(Copy, Clone, Debug)]
pub enum Kind {
	/// Shown if set.
	Flag,
	Number,
	/// Only these codes are assigned; others make the value invalid.
	Codes(&'static [(u8, &'static str)]),
	/// Other codes are named as given.
	CodesOr(&'static [(u8, &'static str)], &'static str),
}
use Kind::{Codes, CodesOr, Flag, Number};

#[derive(Copy, Clone, Debug)]
pub struct Field {
	pub byte:     usize,
	pub mask:     u8,
	pub kind:     Kind,
	pub severity: Severity,
	pub text:     &'static str,
}
const fn field(
	byte: usize,
	mask: u8,
	kind: Kind,
	severity: Severity,
	text: &'static str,
) -> Field {
	Field {
		byte,
		mask,
		kind,
		severity,
		text,
	}
}

#[derive(Copy, Clone, Debug)]
pub struct BitSpec {
	pub bytes:  usize,
	pub fields: &'static [Field],
}

/// One explained field of a value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Item {
	/// Bit numbers, counted from the least significant bit of the last byte.
	pub high:     usize,
	pub low:      usize,
	pub severity: Severity,
	pub text:     String,
}
/// What a diagram shows: the bits with reserved ones as zero, and the explained
/// fields from the highest to the lowest.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Explained {
	pub bits:  Vec<u8>,
	pub items: Vec<Item>,
}

impl BitSpec {
	/// `None`: a code in it isn't assigned.
	pub fn explain(&self, value: &[u8]) -> Option<Explained> {
		assert_eq!(value.len(), self.bytes);
		let mut bits = vec![0; self.bytes];
		let mut items = Vec::new();
		for f in self.fields {
			bits[f.byte] |= f.mask & value[f.byte];
			let base = (self.bytes - 1 - f.byte) * 8;
			let low = f.mask.trailing_zeros() as usize;
			let high = 7 - f.mask.leading_zeros() as usize;
			let code = (value[f.byte] & f.mask) >> low;
			let text = match f.kind {
				Flag if code == 0 => continue,
				Flag => f.text.to_owned(),
				Number => f.text.replace("{}", &code.to_string()),
				Codes(names) => f.text.replace("{}", lookup(names, code)?),
				CodesOr(names, or) => f.text.replace("{}", lookup(names, code).unwrap_or(or)),
			};
			items.push(Item {
				high: base + high,
				low: base + low,
				severity: f.severity,
				text,
			});
		}
		items.sort_by_key(|i| std::cmp::Reverse(i.high));
		Some(Explained { bits, items })
	}
}

pub fn lookup(names: &[(u8, &'static str)], code: u8) -> Option<&'static str> {
	names.iter().find(|(c, _)| *c == code).map(|(_, n)| *n)
}

/// CVM Results: a CV rule and a result.
pub fn explain_cvm_results(value: &[u8]) -> Option<Explained> {
	let mut e = CV_RULE.explain(&value[..2])?;
	for i in &mut e.items {
		i.high += 8;
		i.low += 8;
	}
	let result = lookup(CVM_RESULT_CODES, value[2])?;
	e.bits.push(value[2]);
	e.items.push(Item {
		high:     7,
		low:      0,
		severity: if value[2] == 1 { Error } else { Normal },
		text:     format!("Result: {result}"),
	});
	Some(e)
}

pub fn binary_row(bits: &[u8]) -> String {
	bits.iter()
		.map(|b| format!("{b:08b}"))
		.collect::<Vec<_>>()
		.join(" ")
}

/// Column of a bit in the binary row.
pub fn column(num_bytes: usize, bit: usize) -> usize {
	let from_left = num_bytes * 8 - 1 - bit;
	from_left + from_left / 8
}

fn put(row: &mut Vec<char>, at: usize, c: char) {
	if row.len() <= at {
		row.resize(at + 1, ' ');
	}
	row[at] = c;
}

/// The lines of a bit diagram.
pub fn diagram(e: &Explained) -> Vec<String> {
	let n = e.bits.len();
	let mut lines = vec![binary_row(&e.bits)];
	if e.items.iter().any(|i| i.high > i.low) {
		let mut row = Vec::new();
		for i in &e.items {
			let (from, to) = (column(n, i.high), column(n, i.low));
			if from == to {
				put(&mut row, from, '\u{2502}');
			} else {
				for c in from..=to {
					put(&mut row, c, '\u{2500}');
				}
				put(&mut row, from, '\u{251c}');
				put(&mut row, to, '\u{2518}');
			}
		}
		lines.push(row.into_iter().collect());
	}
	for (index, item) in e.items.iter().enumerate().rev() {
		let mut row = Vec::new();
		for other in &e.items[..index] {
			put(&mut row, column(n, other.high), '\u{2502}');
		}
		put(&mut row, column(n, item.high), '\u{2514}');
		lines.push(format!("{} {}", row.into_iter().collect::<String>(), item.text));
	}
	lines
}

pub const IAC_DEFAULT: &str = "If not an online transaction and any of the following match the TVR, \
                               reject the transaction:";
pub const IAC_DENIAL: &str =
	"If any of the following match the TVR, deny the transaction without even going online:";
pub const IAC_ONLINE: &str =
	"If any of the following match the TVR, complete the transaction online:";

/// A diagnostic, as far as the properties tell them apart.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Diag {
	NonCompliant,
	Unsupported,
	Unrecognised,
	NonCcd,
	InvalidNumber,
	InvalidBytes,
	Components,
	/// Bound, expected, found.
	Count(String, usize, usize),
	Other,
}
impl Diag {
	/// `None`: there's no diagnostic.
	pub fn of(stderr: &str) -> Option<Self> {
		if stderr.trim().is_empty() {
			return None;
		}
		if let Some((_, rest)) = stderr.split_once("Expected: ") {
			if let Some((expected, found)) = rest.split_once(", Found: ") {
				if let (Some((bound, n)), Ok(found)) =
					(expected.rsplit_once(' '), found.trim().parse())
				{
					if let Ok(n) = n.parse() {
						return Some(Self::Count(bound.to_owned(), n, found));
					}
				}
			}
		}
		let phrases = [
			("Common Core Definitions", Self::NonCcd),
			("compliant with the specifications", Self::NonCompliant),
			("in some way unsupported", Self::Unsupported),
			("in some way unrecognised", Self::Unrecognised),
			("not a valid number", Self::InvalidNumber),
			("not divisible into", Self::Components),
			("bytes provided are not valid", Self::InvalidBytes),
		];
		Some(
			phrases
				.into_iter()
				.find(|(phrase, _)| stderr.contains(phrase))
				.map_or(Self::Other, |(_, d)| d),
		)
	}
}
pub fn exactly(expected: usize, found: usize) -> Diag {
	Diag::Count("exactly".to_owned(), expected, found)
}
pub fn at_least(expected: usize, found: usize) -> Diag {
	Diag::Count("greater than or equal to".to_owned(), expected, found)
}

/// What becomes of a value under a tag.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Decoded {
	/// The tag's values aren't decoded.
	Plain,
	/// Decoded, as these lines.
	Lines(Vec<String>),
	/// Not decoded, and named differently.
	Annotated(&'static str),
	/// Refuses the block.
	Refused(Diag),
	/// Refuses the block or is annotated.
	RefusedOrAnnotated,
}
use Decoded::{Annotated, Lines, Plain, Refused};

pub const IAD_NOT_CCD: &str = "Issuer Application Data (Not CCD-Compliant)";
pub const ARC_UNRECOGNISED: &str =
	"Authorisation Response Code (Unrecognised - likely payment system-specific)";
pub const TYPE_UNRECOGNISED: &str =
	"Transaction Type (Unrecognised - likely payment system-specific)";

fn bits_or_count(spec: &BitSpec, value: &[u8]) -> Result<Vec<String>, Diag> {
	if value.len() != spec.bytes {
		return Err(exactly(spec.bytes, value.len()));
	}
	spec.explain(value)
		.map(|e| diagram(&e))
		.ok_or(Diag::NonCcd)
}
pub fn tvr_lines(value: &[u8]) -> Result<Vec<String>, Diag> {
	bits_or_count(&TVR, value)
}
pub fn tsi_lines(value: &[u8]) -> Result<Vec<String>, Diag> {
	bits_or_count(&TSI, value)
}
pub fn cvr_lines(value: &[u8]) -> Result<Vec<String>, Diag> {
	bits_or_count(&CVR, value)
}
pub fn iac_lines(header: &str, value: &[u8]) -> Result<Vec<String>, Diag> {
	let mut lines = vec![header.to_owned()];
	lines.extend(tvr_lines(value)?);
	Ok(lines)
}
pub fn cvm_results_lines(value: &[u8]) -> Result<Vec<String>, Diag> {
	if value.len() != 3 {
		return Err(exactly(3, value.len()));
	}
	explain_cvm_results(value)
		.map(|e| diagram(&e))
		.ok_or(Diag::NonCompliant)
}
pub fn service_code_lines(number: u16) -> Vec<String> {
	let (d1, d2, d3) = (number / 100, number / 10 % 10, number % 10);
	let interchange = match d1 {
		1 | 2 => "International",
		5 | 6 => "National",
		7 => "Private",
		9 => "Test",
		_ => "RFU",
	};
	let technology = match d1 {
		2 | 6 => "Integrated circuit card (ICC)",
		_ => "Magnetic stripe only (MSR)",
	};
	let authorisation = match d2 {
		0 => "Normal",
		2 => "By issuer only (no offline authorisation)",
		4 => {
			"By issuer only unless an explicit bilateral agreement applies (no offline \
			 authorisation)"
		}
		_ => "RFU",
	};
	let services = match d3 {
		0 | 1 | 6 => "No restrictions",
		2 | 5 | 7 => "Goods and services only",
		3 => "ATM only",
		4 => "Cash only",
		_ => "RFU",
	};
	let pin = match d3 {
		0 | 3 | 5 => "PIN required",
		6 | 7 => "Prompt for PIN if PIN pad is present",
		_ => "None",
	};
	vec![
		format!("{number:03}"),
		format!("\u{2502}\u{2502}\u{251c} Allowed Services:         {services}"),
		format!("\u{2502}\u{2502}\u{2514} PIN Requirements:         {pin}"),
		format!("\u{2502}\u{2514}\u{2500} Authorisation Processing: {authorisation}"),
		format!("\u{251c}\u{2500}\u{2500} Interchange:              {interchange}"),
		format!("\u{2514}\u{2500}\u{2500} Technology:               {technology}"),
	]
}
/// The number two BCD bytes stand for, if they're all decimal digits and it's a
/// service code.
pub fn bcd_service_code(value: &[u8]) -> Option<u16> {
	let mut number = 0u32;
	for b in value {
		for d in [b >> 4, b & 15] {
			if d > 9 {
				return None;
			}
			number = number * 10 + u32::from(d);
		}
	}
	(number <= 999).then_some(number as u16)
}

pub struct CvmListSpec {
	pub x:     u32,
	pub y:     u32,
	/// Whether the amounts have to be shown.
	pub shown: bool,
	pub rules: Vec<[u8; 2]>,
}
pub fn cvm_list(value: &[u8]) -> Result<CvmListSpec, Diag> {
	if value.len() < 8 {
		return Err(at_least(8, value.len()));
	}
	if value.len() % 2 != 0 {
		return Err(Diag::Components);
	}
	let word = |i: usize| u32::from_be_bytes(value[i..i + 4].try_into().unwrap());
	let rules: Vec<[u8; 2]> = value[8..].chunks(2).map(|c| [c[0], c[1]]).collect();
	let (x, y) = (word(0), word(4));
	Ok(CvmListSpec {
		x,
		y,
		shown: x != 0 || y != 0 || rules.iter().any(|r| matches!(r[1], 6..=9)),
		rules,
	})
}
/// Method, condition and what happens if unsuccessful.
pub fn cvm_rule(rule: [u8; 2]) -> (&'static str, &'static str, &'static str) {
	(
		lookup(CVM_METHODS, rule[0] & 0x3F).unwrap_or(UNKNOWN_METHOD),
		lookup(CVM_CONDITIONS, rule[1]).unwrap_or(UNKNOWN_CONDITION),
		if rule[0] & 0x40 == 0 { "Fail" } else { "Next CVM" },
	)
}
pub fn cvm_list_lines(value: &[u8]) -> Result<Vec<String>, Diag> {
	let list = cvm_list(value)?;
	let mut lines = Vec::new();
	if list.shown {
		let width = list.x.max(list.y).to_string().len().max(3);
		lines.push(format!(
			"X Value: {:0width$} (implicit decimal point based on application currency)",
			list.x
		));
		lines.push(format!("Y Value: {:0width$}", list.y));
	}
	lines.push("Cardholder Verification Rules:".to_owned());
	for (i, rule) in list.rules.iter().enumerate() {
		let (method, condition, failure) = cvm_rule(*rule);
		lines.push(format!("CVM {}:", i + 1));
		lines.push(format!("\tMethod:          {method}"));
		lines.push(format!("\tCondition:       {condition}"));
		lines.push(format!("\tIf Unsuccessful: {failure}"));
	}
	Ok(lines)
}
pub fn is_ccd_iad(value: &[u8]) -> bool {
	value.len() == 32
		&& value[0] == 15
		&& value[16] == 15
		&& value[1] >> 4 == 0xA
		&& matches!(value[1] & 15, 5 | 6)
}
pub fn spaced_hex(bytes: &[u8]) -> String {
	bytes
		.iter()
		.map(|b| format!("{b:02X}"))
		.collect::<Vec<_>>()
		.join(" ")
}
pub fn iad_lines(value: &[u8]) -> Result<Vec<String>, Diag> {
	if !is_ccd_iad(value) {
		return Err(Diag::NonCcd);
	}
	let indent = |lines: Vec<String>| lines.into_iter().map(|l| format!("\t{l}"));
	let mut lines = vec!["Common Core Identifier:".to_owned()];
	lines.extend(indent(bits_or_count(&CCI, &value[1..2])?));
	lines.push(format!("Derivation Key Index: 0x{:02X}", value[2]));
	lines.push("Card Verification Results:".to_owned());
	lines.extend(indent(cvr_lines(&value[3..8])?));
	lines.push("Counters: (Payment System-Specific)".to_owned());
	lines.push(format!("\t{}", spaced_hex(&value[8..16])));
	lines.push("Issuer-Discretionary Data".to_owned());
	lines.push(format!("\t{}", spaced_hex(&value[17..32])));
	Ok(lines)
}

pub fn tag_name(tag: &[u8]) -> Option<&'static str> {
	TAGS.iter().find(|(t, _)| *t == tag).map(|(_, n)| *n)
}

fn settle(lines: Result<Vec<String>, Diag>) -> Decoded {
	match lines {
		Ok(lines) => Lines(lines),
		Err(diag) => Refused(diag),
	}
}
fn one_byte(
	names: &[(u8, &'static str)],
	value: &[u8],
	unassigned: impl Fn() -> Decoded,
) -> Decoded {
	match value {
		[code] => lookup(names, *code).map_or_else(unassigned, |n| Lines(vec![n.to_owned()])),
		_ => Refused(exactly(1, value.len())),
	}
}

/// The tags whose values are decoded.
pub const DECODED_TAGS: &[&[u8]] = &[
	&[0x95],
	&[0x9B],
	&[0x9F, 0x0D],
	&[0x9F, 0x0E],
	&[0x9F, 0x0F],
	&[0x9F, 0x33],
	&[0x9F, 0x40],
	&[0x9F, 0x34],
	&[0x8E],
	&[0x9F, 0x10],
	&[0x5F, 0x30],
	&[0x8A],
	&[0x9C],
	&[0x9F, 0x39],
	&[0x9F, 0x35],
];

/// What becomes of an unmasked value.
pub fn decode(tag: &[u8], value: &[u8]) -> Decoded {
	match tag {
		[0x95] => settle(tvr_lines(value)),
		[0x9B] => settle(tsi_lines(value)),
		[0x9F, 0x0D] => settle(iac_lines(IAC_DEFAULT, value)),
		[0x9F, 0x0E] => settle(iac_lines(IAC_DENIAL, value)),
		[0x9F, 0x0F] => settle(iac_lines(IAC_ONLINE, value)),
		[0x9F, 0x33] => settle(bits_or_count(&TERMINAL_CAPABILITIES, value)),
		[0x9F, 0x40] => settle(bits_or_count(&ADDITIONAL_TERMINAL_CAPABILITIES, value)),
		[0x9F, 0x34] => settle(cvm_results_lines(value)),
		[0x8E] => settle(cvm_list_lines(value)),
		[0x9F, 0x10] => match iad_lines(value) {
			Ok(lines) => Lines(lines),
			Err(_) => Annotated(IAD_NOT_CCD),
		},
		[0x5F, 0x30] => {
			if value.len() == 2 {
				match bcd_service_code(value) {
					Some(n) => Lines(service_code_lines(n)),
					None => Refused(Diag::InvalidNumber),
				}
			} else {
				Refused(exactly(2, value.len()))
			}
		}
		[0x8A] => {
			if value.len() != 2 {
				return Refused(exactly(2, value.len()));
			}
			if !value.is_ascii() {
				return Decoded::RefusedOrAnnotated;
			}
			let code = std::str::from_utf8(value).unwrap();
			RESPONSE_CODES
				.iter()
				.find(|(c, _)| *c == code)
				.map_or(Annotated(ARC_UNRECOGNISED), |(_, n)| Lines(vec![(*n).to_owned()]))
		}
		[0x9C] => one_byte(TRANSACTION_TYPES, value, || Annotated(TYPE_UNRECOGNISED)),
		[0x9F, 0x39] => one_byte(ENTRY_MODES, value, || Refused(Diag::Unrecognised)),
		[0x9F, 0x35] => one_byte(TERMINAL_TYPES, value, || Refused(Diag::Unrecognised)),
		_ => Plain,
	}
}

/// Whether the value lets its block be shown. `None`: not determined.
pub fn admits(tag: &[u8], value: &[u8]) -> Option<bool> {
	match decode(tag, value) {
		Plain | Lines(_) | Annotated(_) => Some(true),
		Refused(_) => Some(false),
		Decoded::RefusedOrAnnotated => None,
	}
}

/// Whether a parsed block can be shown: no unmasked object in it has a value
/// that its tag refuses. `None`: not determined.
pub fn block_admitted(nodes: &[crate::wire::Node]) -> Option<bool> {
	let mut all = Some(true);
	for n in nodes {
		let own = if n.masked { Some(true) } else { admits(&n.tag, &n.value) };
		for verdict in [own, block_admitted(&n.kids)] {
			match verdict {
				Some(false) => return Some(false),
				None => all = None,
				Some(true) => {}
			}
		}
	}
	all
}

/// The name shown for an unmasked value.
pub fn shown_name(tag: &[u8], value: &[u8]) -> String {
	match decode(tag, value) {
		Annotated(name) => name.to_owned(),
		_ => tag_name(tag).unwrap_or(UNKNOWN_NAME).to_owned(),
	}
}

pub fn class_name(first: u8) -> &'static str {
	["Universal", "Application", "Context-Specific", "Private"][usize::from(first >> 6)]
}
pub fn type_name(first: u8) -> &'static str {
	if first & 0x20 == 0 {
		"Primitive"
	} else {
		"Constructed"
	}
}

pub const UNKNOWN_NAME: &str = "<Unknown>";
pub const UNKNOWN_METHOD: &str = "Unknown (likely issuer or payment system-specific)";
pub const UNKNOWN_CONDITION: &str = "Unknown (likely payment system-specific)";

pub fn describe(tag: &[u8], value: &[u8]) -> String {
	format!("{} = {}", hex(tag), hex(value))
}

pub const TVR: BitSpec = BitSpec {
	bytes:  5,
	fields: &[
		field(0, 0b10000000, Flag, Normal, "Offline data authentication was not performed"),
		field(0, 0b01000000, Flag, Error, "SDA (Static Data Authentication) failed"),
		field(0, 0b00100000, Flag, Error, "ICC data missing"),
		field(0, 0b00010000, Flag, Error, "Card appears on terminal exception file"),
		field(0, 0b00001000, Flag, Error, "DDA (Dynamic Data Authentication) failed"),
		field(0, 0b00000100, Flag, Error, "CDA (Combined Data Authentication) failed"),
		field(1, 0b10000000, Flag, Warning, "ICC and terminal have different application versions"),
		field(1, 0b01000000, Flag, Error, "Expired application"),
		field(1, 0b00100000, Flag, Error, "Application not yet effective"),
		field(1, 0b00010000, Flag, Error, "Requested service not allowed for card product"),
		field(1, 0b00001000, Flag, Warning, "New card"),
		field(2, 0b10000000, Flag, Warning, "Cardholder verification was not successful"),
		field(2, 0b01000000, Flag, Warning, "Unrecognised CVM (Cardholder Verification Method)"),
		field(2, 0b00100000, Flag, Error, "PIN try limit exceeded"),
		field(2, 0b00010000, Flag, Error, "PIN entry required and PIN pad not present or not working"),
		field(2, 0b00001000, Flag, Warning, "PIN entry required, PIN pad present, but PIN was not entered (PIN bypass)"),
		field(2, 0b00000100, Flag, Normal, "Online PIN entered"),
		field(3, 0b10000000, Flag, Normal, "Transaction exceeds floor limit"),
		field(3, 0b01000000, Flag, Normal, "Lower consecutive offline limit exceeded"),
		field(3, 0b00100000, Flag, Normal, "Upper consecutive offline limit exceeded"),
		field(3, 0b00010000, Flag, Normal, "Transaction selected randomly for online processing"),
		field(3, 0b00001000, Flag, Normal, "Merchant forced transaction online"),
		field(4, 0b10000000, Flag, Normal, "Default TDOL (Transaction Certificate Data Object List) used"),
		field(4, 0b01000000, Flag, Error, "Issuer authentication failed"),
		field(4, 0b00100000, Flag, Error, "Script processing failed before final GENERATE AC"),
		field(4, 0b00010000, Flag, Error, "Script processing failed after final GENERATE AC"),
	],
};
pub const TSI: BitSpec = BitSpec {
	bytes:  2,
	fields: &[
		field(0, 0b10000000, Flag, Normal, "Offline data authentication was performed"),
		field(0, 0b01000000, Flag, Normal, "Cardholder verification was performed"),
		field(0, 0b00100000, Flag, Normal, "Card risk management was performed"),
		field(0, 0b00010000, Flag, Normal, "Issuer authentication was performed"),
		field(0, 0b00001000, Flag, Normal, "Terminal risk management was performed"),
		field(0, 0b00000100, Flag, Normal, "Script processing was performed"),
	],
};
pub const TERMINAL_CAPABILITIES: BitSpec = BitSpec {
	bytes:  3,
	fields: &[
		field(0, 0b10000000, Flag, Normal, "Manual key entry"),
		field(0, 0b01000000, Flag, Normal, "Magnetic stripe (MSR)"),
		field(0, 0b00100000, Flag, Normal, "IC with contacts (ICC)"),
		field(1, 0b10000000, Flag, Normal, "Plaintext PIN for ICC verification"),
		field(1, 0b01000000, Flag, Normal, "Enciphered PIN for online verification"),
		field(1, 0b00100000, Flag, Normal, "Signature (paper)"),
		field(1, 0b00010000, Flag, Normal, "Enciphered PIN for offline verification"),
		field(1, 0b00001000, Flag, Normal, "No CVM Required"),
		field(2, 0b10000000, Flag, Normal, "SDA (Static Data Authentication)"),
		field(2, 0b01000000, Flag, Normal, "DDA (Dynamic Data Authentication)"),
		field(2, 0b00100000, Flag, Normal, "Card capture (ATM retaining the card)"),
		field(2, 0b00001000, Flag, Normal, "CDA (Combined Data Authentication)"),
	],
};
pub const ADDITIONAL_TERMINAL_CAPABILITIES: BitSpec = BitSpec {
	bytes:  5,
	fields: &[
		field(0, 0b10000000, Flag, Normal, "Cash"),
		field(0, 0b01000000, Flag, Normal, "Goods"),
		field(0, 0b00100000, Flag, Normal, "Services"),
		field(0, 0b00010000, Flag, Normal, "Cashback"),
		field(0, 0b00001000, Flag, Normal, "Inquiry (request for information about one of the cardholder's accounts)"),
		field(0, 0b00000100, Flag, Normal, "Transfer (between cardholder accounts at the same financial institution)"),
		field(0, 0b00000010, Flag, Normal, "Payment (from a cardholder account to another party)"),
		field(0, 0b00000001, Flag, Normal, "Administrative"),
		field(1, 0b10000000, Flag, Normal, "Cash Deposit (into a bank account related to an application on the card used)"),
		field(2, 0b10000000, Flag, Normal, "Numeric keys"),
		field(2, 0b01000000, Flag, Normal, "Alphabetic and special characters keys"),
		field(2, 0b00100000, Flag, Normal, "Command keys"),
		field(2, 0b00010000, Flag, Normal, "Function keys"),
		field(3, 0b10000000, Flag, Normal, "Print, attendant"),
		field(3, 0b01000000, Flag, Normal, "Print, cardholder"),
		field(3, 0b00100000, Flag, Normal, "Display, attendant"),
		field(3, 0b00010000, Flag, Normal, "Display, cardholder"),
		field(3, 0b00000010, Flag, Normal, "ISO/IEC 8859 Code Table 10"),
		field(3, 0b00000001, Flag, Normal, "ISO/IEC 8859 Code Table 9"),
		field(4, 0b10000000, Flag, Normal, "ISO/IEC 8859 Code Table 8"),
		field(4, 0b01000000, Flag, Normal, "ISO/IEC 8859 Code Table 7"),
		field(4, 0b00100000, Flag, Normal, "ISO/IEC 8859 Code Table 6"),
		field(4, 0b00010000, Flag, Normal, "ISO/IEC 8859 Code Table 5"),
		field(4, 0b00001000, Flag, Normal, "ISO/IEC 8859 Code Table 4"),
		field(4, 0b00000100, Flag, Normal, "ISO/IEC 8859 Code Table 3"),
		field(4, 0b00000010, Flag, Normal, "ISO/IEC 8859 Code Table 2"),
		field(4, 0b00000001, Flag, Normal, "ISO/IEC 8859 Code Table 1"),
	],
};
pub const CVR: BitSpec = BitSpec {
	bytes:  5,
	fields: &[
		field(0, 0b11000000, Codes(GEN_AC_2), Normal, "Application cryptogram type returned in 2nd GENERATE AC: {}"),
		field(0, 0b00110000, Codes(GEN_AC_1), Normal, "Application cryptogram type returned in 1st GENERATE AC: {}"),
		field(0, 0b00001000, Flag, Normal, "CDA (Combined Data Authentication) performed"),
		field(0, 0b00000100, Flag, Normal, "Offline DDA (Dynamic Data Authentication) performed"),
		field(0, 0b00000010, Flag, Warning, "Issuer authentication not performed"),
		field(0, 0b00000001, Flag, Error, "Issuer authentication failed"),
		field(1, 0b11110000, Number, Normal, "PIN try count: {}"),
		field(1, 0b00001000, Flag, Normal, "Offline PIN verification performed"),
		field(1, 0b00000100, Flag, Error, "Offline PIN verification performed and PIN not successfully verified"),
		field(1, 0b00000010, Flag, Error, "PIN try limit exceeded"),
		field(1, 0b00000001, Flag, Warning, "Last online transaction not completed"),
		field(2, 0b10000000, Flag, Normal, "Lower offline transaction count limit exceeded"),
		field(2, 0b01000000, Flag, Normal, "Upper offline transaction count limit exceeded"),
		field(2, 0b00100000, Flag, Normal, "Lower cumulative offline amount limit exceeded"),
		field(2, 0b00010000, Flag, Normal, "Upper cumulative offline amount limit exceeded"),
		field(2, 0b00001000, Flag, Normal, "Issuer-discretionary bit 1"),
		field(2, 0b00000100, Flag, Normal, "Issuer-discretionary bit 2"),
		field(2, 0b00000010, Flag, Normal, "Issuer-discretionary bit 3"),
		field(2, 0b00000001, Flag, Normal, "Issuer-discretionary bit 4"),
		field(3, 0b11110000, Number, Normal, "Number of successfully processed issuer script commands containing secure messaging: {}"),
		field(3, 0b00001000, Flag, Error, "Issuer script processing failed"),
		field(3, 0b00000100, Flag, Warning, "Offline data authentication failed on previous transaction"),
		field(3, 0b00000010, Flag, Normal, "Go online on next transaction"),
		field(3, 0b00000001, Flag, Warning, "Unable to go online"),
	],
};
pub const CCI: BitSpec = BitSpec {
	bytes:  1,
	fields: &[
		field(0, 0b11110000, Codes(FORMAT_CODES), Normal, "IAD Format Code: {}"),
		field(0, 0b00001111, Codes(CRYPTOGRAM_VERSIONS), Normal, "Cryptogram Version: {}"),
	],
};
pub const CV_RULE: BitSpec = BitSpec {
	bytes:  2,
	fields: &[
		field(0, 0b01000000, Flag, Normal, "Apply succeeding CV Rule if this CVM is unsuccessful"),
		field(0, 0b00111111, CodesOr(CVM_METHODS, UNKNOWN_METHOD), Normal, "Method: {}"),
		field(1, 0b11111111, CodesOr(CVM_CONDITIONS, UNKNOWN_CONDITION), Normal, "Condition: {}"),
	],
};
pub const GEN_AC_1: &[(u8, &str)] = &[
	(0x00, "AAC (Application Authentication Cryptogram)"),
	(0x01, "TC (Transaction Certificate)"),
	(0x02, "ARQC (Authorization Request Cryptogram)"),
	(0x03, "RFU (Reserved For Use)"),
];
pub const GEN_AC_2: &[(u8, &str)] = &[
	(0x00, "AAC (Application Authentication Cryptogram)"),
	(0x01, "TC (Transaction Certificate)"),
	(0x02, "Second GENERATE AC not requested"),
	(0x03, "RFU (Reserved For Use)"),
];
pub const FORMAT_CODES: &[(u8, &str)] = &[
	(0x0A, "Format A"),
];
pub const CRYPTOGRAM_VERSIONS: &[(u8, &str)] = &[
	(0x05, "Triple DES (3DES)"),
	(0x06, "AES"),
];
pub const CVM_METHODS: &[(u8, &str)] = &[
	(0x00, "Fail CVM processing"),
	(0x01, "Plaintext PIN verification performed by ICC"),
	(0x02, "Enciphered PIN verified online"),
	(0x03, "Plaintext PIN verification performed by ICC and signature (paper)"),
	(0x04, "Enciphered PIN verification performed by ICC"),
	(0x05, "Enciphered PIN verification performed by ICC and signature (paper)"),
	(0x1E, "Signature (paper)"),
	(0x1F, "No CVM required"),
	(0x3F, "No CVM performed"),
];
pub const CVM_CONDITIONS: &[(u8, &str)] = &[
	(0x00, "Always"),
	(0x01, "If unattended cash"),
	(0x02, "If not unattended cash and not manual cash and not purchase with cashback"),
	(0x03, "If terminal supports the CVM"),
	(0x04, "If manual cash"),
	(0x05, "If purchase with cashback"),
	(0x06, "If transaction is in the application currency and is under X value"),
	(0x07, "If transaction is in the application currency and is over X value"),
	(0x08, "If transaction is in the application currency and is under Y value"),
	(0x09, "If transaction is in the application currency and is over Y value"),
];
pub const CVM_RESULT_CODES: &[(u8, &str)] = &[
	(0x00, "Unknown"),
	(0x01, "Failed"),
	(0x02, "Successful"),
];
pub const RESPONSE_CODES: &[(&str, &str)] = &[
	("00", "Approval"),
	("01", "Call"),
	("02", "Call - Special Conditions"),
	("03", "Terminal ID Error"),
	("04", "Hold Card - Call"),
	("05", "Decline - Do Not Honour"),
	("06", "Error"),
	("07", "Hold Card - Call - Special Conditions"),
	("08", "Honour With Identification"),
	("09", "No Original Transaction"),
	("10", "Partial Approval"),
	("11", "Approved (VIP)"),
	("12", "Invalid Transaction"),
	("13", "Invalid Amount"),
	("14", "Invalid Card Number"),
	("15", "No Such Issuer"),
	("16", "Approved - Update Track 3"),
	("17", "Customer Cancellation"),
	("18", "Customer Dispute"),
	("19", "Retry Transaction"),
	("20", "Invalid Response"),
	("21", "No Action Taken"),
	("22", "Suspected Malfunction"),
	("23", "Invalid Minimum Amount"),
	("24", "File Update Not Supported"),
	("25", "Invalid ICC Data"),
	("26", "Duplicate File Update Record"),
	("27", "File Update Field Edit Error"),
	("28", "File Update File Locked Out"),
	("29", "File Update Not Successful"),
	("30", "Format Error"),
	("31", "Bank Not Supported By Switch"),
	("32", "Completed Partially"),
	("33", "Expired Card"),
	("54", "Expired Card"),
	("34", "Suspected Fraud"),
	("59", "Suspected Fraud"),
	("35", "Card Acceptor, Contact Acquirer"),
	("60", "Card Acceptor, Contact Acquirer"),
	("36", "Restricted Card"),
	("62", "Restricted Card"),
	("37", "Card Acceptor, Call Acquirer Security"),
	("66", "Card Acceptor, Call Acquirer Security"),
	("38", "Allowable PIN Retries Exceeded"),
	("75", "Allowable PIN Retries Exceeded"),
	("39", "No Credit Account"),
	("40", "Requested Function Not Supported"),
	("41", "Lost Card"),
	("42", "No Universal Account"),
	("43", "Stolen Card"),
	("44", "No Investment Account"),
	("51", "Insufficient Funds"),
	("52", "No Chequing Account"),
	("53", "No Savings Account"),
	("55", "Incorrect PIN"),
	("56", "No Card Record"),
	("57", "Transaction Not Allowed For Cardholder"),
	("58", "Transaction Not Allowed For Terminal"),
	("61", "Debit Cashback Withdrawal Limit Decline"),
	("63", "Security Violation"),
	("64", "Original Amount Incorrect"),
	("65", "Decline - Insert Card (often due to too many contactless transactions)"),
	("67", "ATM Hard Card Capture"),
	("68", "Response Received Too Late"),
	("91", "Issuer Timeout"),
	("92", "Issuer Routing Problem"),
	("93", "Transaction Not Completed - Law Violation"),
	("94", "Duplicate Transmission"),
	("95", "Reconciliation Error"),
	("96", "System Malfunction"),
];
pub const TRANSACTION_TYPES: &[(u8, &str)] = &[
	(0x00, "Purchase"),
	(0x01, "Cash Advance"),
	(0x02, "Void"),
	(0x09, "Purchase With Cashback"),
	(0x20, "Refund"),
	(0x31, "Balance Inquiry"),
	(0x38, "Mini Statement"),
	(0x40, "Fund Transfer"),
];
pub const ENTRY_MODES: &[(u8, &str)] = &[
	(0x00, "Unknown"),
	(0x01, "Manual (keyed entry)"),
	(0x02, "Magnetic Stripe Reader (MSR)"),
	(0x03, "Barcode"),
	(0x04, "Optical Character Recognition (OCR)"),
	(0x05, "Integrated Circuit Chip (ICC) - Data Reliable (contact/insert transaction) (CVV can be checked)"),
	(0x06, "Magnetic Stripe Track 1"),
	(0x07, "Contactless Chip (contactless/tap transaction)"),
	(0x83, "Contactless Chip (contactless/tap transaction)"),
	(0x08, "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied"),
	(0x92, "Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied"),
	(0x09, "E-Commerce - Including Remote Chip"),
	(0x10, "Merchant Has Cardholder Credentials On File (token, recurring payment, etc.)"),
	(0x80, "ICC Could Not Process - Fallback to MSR"),
	(0x81, "E-Commerce - Including Chip"),
	(0x82, "Via a Server (issuer, acquirer, third-party vendor)"),
	(0x90, "Magnetic Stripe Reader (MSR) - Full Track Data - Data Reliable (CVV can be checked)"),
	(0x91, "Contactless Magnetic Stripe Data (MSD)"),
	(0x95, "Integrated Circuit Chip (ICC) - Data Unreliable (contact/insert transaction) (CVV cannot be checked)"),
];
pub const TERMINAL_TYPES: &[(u8, &str)] = &[
	(0x11, "Attended, Online-Only, Controlled by a Financial Institution"),
	(0x12, "Attended, Offline With Online Capabilities, Controlled by a Financial Institution"),
	(0x13, "Attended, Offline-Only, Controlled by a Financial Institution"),
	(0x14, "Unattended, Online-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x15, "Unattended, Offline With Online Capabilities, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x16, "Unattended, Offline-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)"),
	(0x21, "Attended, Online-Only, Controlled by a Merchant"),
	(0x22, "Attended, Offline With Online Capabilities, Controlled by a Merchant"),
	(0x23, "Attended, Offline-Only, Controlled by a Merchant"),
	(0x24, "Unattended, Online-Only, Controlled by a Merchant"),
	(0x25, "Unattended, Offline With Online Capabilities, Controlled by a Merchant"),
	(0x26, "Unattended, Offline-Only, Controlled by a Merchant"),
	(0x34, "Unattended, Online-Only, Controlled by the Cardholder (self-attended, home PC, etc.)"),
	(0x35, "Unattended, Offline With Online Capabilities, Controlled by the Cardholder (self-attended, home PC, etc.)"),
	(0x36, "Unattended, Offline-Only, Controlled by the Cardholder (self-attended, home PC, etc.)"),
];
pub const TAGS: &[(&[u8], &str)] = &[
	(&[0x42], "Issuer Identification Number (IIN)"),
	(&[0x4F], "Application Dedicated File (ADF) Name"),
	(&[0x50], "Application Label"),
	(&[0x57], "Track 2 Equivalent Data"),
	(&[0x5A], "Application Primary Account Number (PAN)"),
	(&[0x5F, 0x20], "Cardholder Name"),
	(&[0x5F, 0x24], "Application Expiration Date"),
	(&[0x5F, 0x25], "Application Effective Date"),
	(&[0x5F, 0x28], "Issuer Country Code"),
	(&[0x5F, 0x2A], "Transaction Currency Code"),
	(&[0x5F, 0x2D], "Language Preference"),
	(&[0x5F, 0x30], "Service Code"),
	(&[0x5F, 0x34], "Application Primary Account Number (PAN) Sequence Number"),
	(&[0x5F, 0x36], "Transaction Currency Exponent"),
	(&[0x5F, 0x50], "Issuer URL"),
	(&[0x5F, 0x53], "International Bank Account Number (IBAN)"),
	(&[0x5F, 0x54], "Bank Identifier Code (BIC)"),
	(&[0x5F, 0x55], "Issuer Country Code (alpha2 format)"),
	(&[0x5F, 0x56], "Issuer Country Code (alpha3 format)"),
	(&[0x5F, 0x57], "Account Type"),
	(&[0x61], "Application Template"),
	(&[0x6F], "File Control Information (FCI) Template"),
	(&[0x70], "READ RECORD Response Message Template"),
	(&[0x71], "Issuer Script Template 1"),
	(&[0x72], "Issuer Script Template 2"),
	(&[0x73], "Directory Discretionary Template"),
	(&[0x77], "Response Message Template Format 2"),
	(&[0x80], "Response Message Template Format 1"),
	(&[0x81], "Amount, Authorised (Binary)"),
	(&[0x82], "Application Interchange Profile"),
	(&[0x83], "Command Template"),
	(&[0x84], "Dedicated File (DF) Name"),
	(&[0x86], "Issuer Script Command"),
	(&[0x87], "Application Priority Indicator"),
	(&[0x88], "Short File Identifier (SFI)"),
	(&[0x89], "Authorisation Code"),
	(&[0x8A], "Authorisation Response Code"),
	(&[0x8C], "Card Risk Management Data Object List 1 (CDOL1)"),
	(&[0x8D], "Card Risk Management Data Object List 2 (CDOL2)"),
	(&[0x8E], "CVM List"),
	(&[0x8F], "Certification Authority Public Key Index (ICC)"),
	(&[0x90], "Issuer Public Key Certificate"),
	(&[0x91], "Issuer Authentication Data"),
	(&[0x92], "Issuer Public Key Remainder"),
	(&[0x93], "Signed Static Application Data"),
	(&[0x94], "Application File Locator (AFL)"),
	(&[0x95], "Terminal Verification Results (TVR)"),
	(&[0x97], "Transaction Certificate Data Object List (TDOL)"),
	(&[0x98], "Transaction Certificate (TC) Hash Value"),
	(&[0x99], "Transaction PIN Data"),
	(&[0x9A], "Transaction Date"),
	(&[0x9B], "Transaction Status Information (TSI)"),
	(&[0x9C], "Transaction Type"),
	(&[0x9D], "Directory Definition File (DDF) Name"),
	(&[0x9F, 0x01], "Acquirer Identifier"),
	(&[0x9F, 0x02], "Amount, Authorised (Numeric)"),
	(&[0x9F, 0x03], "Amount, Other (Numeric)"),
	(&[0x9F, 0x04], "Amount, Other (Binary)"),
	(&[0x9F, 0x05], "Application Discretionary Data"),
	(&[0x9F, 0x06], "Application Identifier (AID)"),
	(&[0x9F, 0x07], "Application Usage Control"),
	(&[0x9F, 0x08], "Application Version Number (ICC)"),
	(&[0x9F, 0x09], "Application Version Number (Terminal)"),
	(&[0x9F, 0x0B], "Cardholder Name Extended"),
	(&[0x9F, 0x0D], "Issuer Action Code - Default"),
	(&[0x9F, 0x0E], "Issuer Action Code - Denial"),
	(&[0x9F, 0x0F], "Issuer Action Code - Online"),
	(&[0x9F, 0x10], "Issuer Application Data (CCD-Compliant)"),
	(&[0x9F, 0x11], "Issuer Code Table Index"),
	(&[0x9F, 0x12], "Application Preferred Name"),
	(&[0x9F, 0x13], "Last Online Application Transaction Counter (ATC) Register"),
	(&[0x9F, 0x14], "Lower Consecutive Offline Limit"),
	(&[0x9F, 0x15], "Merchant Category Code"),
	(&[0x9F, 0x16], "Merchant Identifier"),
	(&[0x9F, 0x17], "PIN Try Counter"),
	(&[0x9F, 0x18], "Issuer Script Identifier"),
	(&[0x9F, 0x1A], "Terminal Country Code"),
	(&[0x9F, 0x1B], "Terminal Floor Limit"),
	(&[0x9F, 0x1C], "Terminal Identification"),
	(&[0x9F, 0x1D], "Terminal Risk Management Data"),
	(&[0x9F, 0x1E], "Interface Device (IFD/Terminal) Serial Number"),
	(&[0x9F, 0x1F], "Track 1 Discretionary Data"),
	(&[0x9F, 0x20], "Track 2 Discretionary Data"),
	(&[0x9F, 0x21], "Transaction Time"),
	(&[0x9F, 0x22], "Certification Authority Public Key Index (Terminal)"),
	(&[0x9F, 0x23], "Upper Consecutive Offline Limit"),
	(&[0x9F, 0x26], "Application Cryptogram"),
	(&[0x9F, 0x27], "Cryptogram Information Data (CID)"),
	(&[0x9F, 0x2D], "ICC PIN Encipherment Public Key Certificate"),
	(&[0x9F, 0x2E], "ICC PIN Encipherment Public Key Exponent"),
	(&[0x9F, 0x2F], "ICC PIN Encipherment Public Key Remainder"),
	(&[0x9F, 0x32], "Issuer Public Key Exponent"),
	(&[0x9F, 0x33], "Terminal Capabilities"),
	(&[0x9F, 0x34], "CVM Results"),
	(&[0x9F, 0x35], "Terminal Type"),
	(&[0x9F, 0x36], "Application Transaction Counter (ATC)"),
	(&[0x9F, 0x37], "Unpredictable Number"),
	(&[0x9F, 0x38], "Processing Options Data Object List (PDOL)"),
	(&[0x9F, 0x39], "POS Entry Mode"),
	(&[0x9F, 0x3A], "Amount, Reference Currency (Binary)"),
	(&[0x9F, 0x3B], "Application Reference Currency"),
	(&[0x9F, 0x3C], "Transaction Reference Currency Code"),
	(&[0x9F, 0x3D], "Transaction Reference Currency Exponent"),
	(&[0x9F, 0x40], "Additional Terminal Capabilities"),
	(&[0x9F, 0x41], "Transaction Sequence Counter"),
	(&[0x9F, 0x42], "Application Currency Code"),
	(&[0x9F, 0x43], "Application Reference Currency Exponent"),
	(&[0x9F, 0x44], "Application Currency Exponent"),
	(&[0x9F, 0x45], "Data Authentication Code"),
	(&[0x9F, 0x46], "ICC Public Key Certificate"),
	(&[0x9F, 0x47], "ICC Public Key Exponent"),
	(&[0x9F, 0x48], "ICC Public Key Remainder"),
	(&[0x9F, 0x49], "Dynamic Data Authentication Data Object List (DDOL)"),
	(&[0x9F, 0x4A], "Static Data Authentication Tag List"),
	(&[0x9F, 0x4B], "Signed Dynamic Application Data"),
	(&[0x9F, 0x4C], "ICC Dynamic Number"),
	(&[0x9F, 0x4D], "Log Entry"),
	(&[0x9F, 0x4E], "Merchant Name and Location"),
	(&[0x9F, 0x4F], "Log Format"),
	(&[0xA5], "File Control Information (FCI) Proprietary Template"),
	(&[0xBF, 0x0C], "File Control Information (FCI) Issuer Discretionary Data"),
];

// Severity

fn diagram_severities(e: &Explained) -> Vec<Severity> {
	let mut all = vec![Normal];
	if e.items.iter().any(|i| i.high > i.low) {
		all.push(Normal);
	}
	all.extend(e.items.iter().rev().map(|i| i.severity));
	all
}
/// The severity of each line of a Card Verification Results breakdown.
pub fn cvr_severities(value: &[u8]) -> Option<Vec<Severity>> {
	(value.len() == CVR.bytes)
		.then(|| CVR.explain(value))
		.flatten()
		.map(|e| diagram_severities(&e))
}
/// The severity of each line of a decoded value (as [`decode`] gives them),
/// where it's a result that has any. Everything else is normal.
pub fn severities(tag: &[u8], value: &[u8]) -> Option<Vec<Severity>> {
	let Lines(lines) = decode(tag, value) else {
		return None;
	};
	let spec = match tag {
		[0x95] => Some(TVR),
		[0x9B] => Some(TSI),
		[0x9F, 0x33] => Some(TERMINAL_CAPABILITIES),
		[0x9F, 0x40] => Some(ADDITIONAL_TERMINAL_CAPABILITIES),
		_ => None,
	};
	if let Some(spec) = spec {
		return spec.explain(value).map(|e| diagram_severities(&e));
	}
	match tag {
		[0x9F, 0x34] => explain_cvm_results(value).map(|e| diagram_severities(&e)),
		[0x9F, 0x10] => {
			let mut all = vec![Normal];
			all.extend(diagram_severities(&CCI.explain(&value[1..2])?));
			all.extend([Normal, Normal]);
			all.extend(cvr_severities(&value[3..8])?);
			all.extend([Normal; 4]);
			Some(all)
		}
		_ => Some(vec![Normal; lines.len()]),
	}
}
